import unicodedata

from lib import spec, tree
from lib.gen import JSON_VALUES, built
from lib.sut import api, parse, require

RULE = ("Two documents or nodes that differ by one edit (attribute changed, added or removed; text; mark added, removed, "
        "reordered or changed; child dropped, duplicated, moved or swapped; optional part emptied; unknown field added; "
        "keys reordered) or by none. Every field of every object of the first tree is also assigned and deleted. "
        "Non-trivial: the tree has at least one attribute, mark or child.")
ASSUMPTIONS = ["documented fields as in lib/spec.py; values are compared as Python compares them (1 == True)"]
EXAMPLES = {"quick": 1950, "thorough": 32000}
REQUIRED_CLASSES = ["equal", "different", "edit:attr", "edit:remove attr", "edit:add attr", "edit:text", "edit:child",
                    "edit:marks", "edit:unknown", "edit:none", "edit:emptied", "each attribute"]


def nudge(g, v):
    """Another string that is easily taken for the same."""
    k = g.int(0, 15)
    out = [v + "x", v + " ", v + "0", v + "\u200b", v[:-1], v + "/", " " + v, v.upper(), v.lower(), v.swapcase(), "0" + v, v + "\n",
           unicodedata.normalize("NFD", v), unicodedata.normalize("NFKC", v), v + "#", "/" + v][k]
    return out if out != v else v + "/"


def edit(g, d):
    """Edits d in place; returns a label."""
    ns = list(tree.nodes(d))
    n = g.pick(ns)
    k = g.int(0, 9)
    s = spec.NODES[n["type"]]
    if k == 0:
        return "none"
    if k == 1:
        where = g.pick([x for x in (n, n.get("attrs")) if x is not None])
        where["zz-unknown"] = g.pick(JSON_VALUES)
        return "unknown"
    if k in (2, 3, 4):
        with_attrs = [x for x in ns if x.get("attrs")] + [m for _, _, m in tree.marks(d) if m.get("attrs")]
        if with_attrs:
            x = g.pick(with_attrs)
            is_mark = not any(x is y for y in ns)
            kinds = spec.MARKS[x["type"]] if is_mark else spec.NODES[x["type"]].attrs
            name = g.pick(sorted(x["attrs"]))
            v = x["attrs"][name]
            if k == 2 and not kinds[name][0]:
                del x["attrs"][name]
                return "remove attr"
            if isinstance(v, str):
                x["attrs"][name] = nudge(g, v)
            elif isinstance(v, bool):
                x["attrs"][name] = not v
            elif isinstance(v, (int, float)):
                x["attrs"][name] = v + g.pick([1, 0.5])
            elif isinstance(v, list):
                v.append(g.pick([0, "x"]))
            else:
                v["zz"] = 0
            return "attr"
    if k == 5 and s.attrs:
        missing = [a for a in s.attrs if a not in n.get("attrs", {})]
        if missing:
            name = g.pick(missing)
            n.setdefault("attrs", {})[name] = g.pick(["", "v"])
            return "add attr"
    if k == 6:
        texts = [x for x in ns if x["type"] == "text"]
        if texts:
            x = g.pick(texts)
            x["text"] = x["text"][1:] if g.flip(4) else nudge(g, x["text"])
            return "text"
    if k == 7:
        marked = [x for x in ns if x["type"] == "text"]
        if marked:
            x = g.pick(marked)
            ms = x.get("marks")
            j = g.int(0, 4)
            if not ms:
                x["marks"] = [] if j == 0 else [{"type": g.pick(["em", "strong", "underline"])}]
            elif j == 0:
                ms.reverse()
            elif j == 1:
                ms.pop()
            elif j == 2:
                ms.append(dict(ms[0]))
            elif j == 3:
                ms[0] = {"type": "strike" if ms[0]["type"] == "em" else "em"}
            else:
                del x["marks"]
            return "marks"
    if k == 8:
        opts = [x for x in ns if "content" in x and not spec.NODES[x["type"]].content_required]
        if opts:
            x = g.pick(opts)
            if x["content"] == []:
                del x["content"]
            else:
                x["content"] = []
            return "emptied"
    withkids = [x for x in ns if x.get("content")]
    if withkids:
        x = g.pick(withkids)
        c = x["content"]
        i, j = g.int(0, len(c) - 1), g.int(0, len(c) - 1)
        m = g.int(0, 4)
        if m == 0:
            c[i], c[j] = c[j], c[i]
        elif m == 1:
            del c[i]
        elif m == 2:
            c.insert(j, tree.clone(c[i]))
        elif m == 3:
            c.append({"type": "hardBreak"})
        else:
            c[i] = {"type": "rule"}
        return "child"
    return "none"


def _case(g):
    a = g.doc(hi=4) if g.flip() else g.node(g.pick(list(spec.NODES)))
    b = tree.clone(a)
    label = edit(g, b)
    if g.flip(3):
        b = reorder(b)
    return {"a": a, "b": b, "edit": label}


def reorder(x):
    if isinstance(x, dict):
        return {k: reorder(v) for k, v in reversed(list(x.items()))}
    return [reorder(v) for v in x] if isinstance(x, list) else x


def cases():
    return built(_case, wild=True, loose=14, extras=2)


FIELDS = ["type", "attrs", "content", "marks", "text", "version"]


def frozen(obj, raw, is_attrs=False):
    names = sorted(raw) if is_attrs else [k for k in FIELDS if hasattr(obj, k)]
    for name in names:
        before = getattr(obj, name)
        for what, fn in (("assign", lambda: setattr(obj, name, "changed")), ("delete", lambda: delattr(obj, name))):
            try:
                fn()
                done = True
            except Exception:
                done = False
            require(not done, "%s: could %s field %s", type(obj).__name__, what, name)
            require(getattr(obj, name, None) is before, "%s.%s changed by a refused attempt", type(obj).__name__, name)


def freeze_all(obj, raw):
    frozen(obj, raw)
    s = spec.NODES[raw["type"]]
    if raw.get("attrs") is not None and s.attrs is not None:
        frozen(obj.attrs, [k for k in s.attrs], True)
    if s.marks is not None:
        for m, r in zip(obj.marks if "marks" in raw else [], raw.get("marks", [])):
            frozen(m, r)
            if spec.MARKS[r["type"]] is not None:
                frozen(m.attrs, list(spec.MARKS[r["type"]]), True)
    for c, r in zip(obj.content if "content" in raw else [], raw.get("content", [])):
        freeze_all(c, r)


NEAR = [["p", "q", "P"], ["p", "p/", "p "], ["p", " p", "p\n"], ["0", "00", "+0"], [0, 0.5, "0"], ["", " ", None], ["p", "p#", "p?"],
        ["e\u0301", "\u00e9", "e"], [1, 2, "1"], [False, True, "True"], ["a-b", "a_b", "ab"], [10 ** 20, 10 ** 20 + 1, 1e10]]


def each_attribute(d, note):
    """Two elements that differ in one attribute only, for every attribute of the type."""
    kinds = spec.MARKS[d["type"]] if d["type"] in spec.MARKS else spec.NODES[d["type"]].attrs
    make = api.parse_mark if d["type"] in spec.MARKS else parse
    for name in kinds or ():
        values = [{"id": "a"}, {"id": "b"}] if name == "datasource" else NEAR[len(tree.canon(d)) % len(NEAR)]
        objs = [make(dict(d, attrs=dict(d.get("attrs", {}), **{name: v}))) for v in values]
        if not kinds[name][0]:
            objs.append(make(dict(d, attrs={k: v for k, v in d.get("attrs", {}).items() if k != name})))
        for i, x in enumerate(objs):
            for j, y in enumerate(objs):
                require((x == y) is (i == j) and (x != y) is (i != j), "two of type %s that differ in attribute %s only: %r, %r",
                        d["type"], name, x, y)
        note("each attribute")


def check(case, note):
    a, b = case["a"], case["b"]
    oa, ob = parse(a), parse(b)
    want = spec.project(a) == spec.project(b)
    note("equal" if want else "different", "edit:" + case["edit"])
    require((oa == ob) is want, "the documents %s, the objects %s (edit: %s)",
            "agree" if want else "differ", "are equal" if oa == ob else "are not equal", case["edit"])
    require((ob == oa) is want and (oa != ob) is not want and (ob != oa) is not want, "equality is not symmetric")
    require(oa == parse(tree.clone(a)) and oa == oa, "two parses of one document are unequal")
    require(not (oa == a) and not (oa == None), "an object equals something that is no node")  # noqa: E711
    freeze_all(oa, a)
    some = list(tree.nodes(a))[:3]
    for d in some + [m for n in some for m in n.get("marks", ())]:
        each_attribute(d, note)
    note.nontrivial(len(a) > 1)
