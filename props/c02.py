import json

from lib import spec, tree
from lib.gen import built
from lib.sut import api, call, require, same, to_dict

RULE = ("A document, node or mark built by calling the public constructors bottom-up with any subset of optional "
        "fields, type given or left to its default, equal parts sometimes being one object. Non-trivial: at least two nested objects.")
ASSUMPTIONS = ["lib/spec.py states the fields of each class",
               "the datasource of a block card stays plain data when parsed, so trees holding datasource objects are "
               "only checked for what they serialise to"]
EXAMPLES = {"quick": 1950, "thorough": 32000}
REQUIRED_CLASSES = ["root:mark", "datasource", "default type", "given type", "shared"]


def _case(g):
    k = g.int(0, 5)
    if k == 0:
        d, kind = g.mark(g.pick(list(spec.MARKS))), "mark"
    elif k == 1:
        d, kind = g.node("blockCard"), "node"
        d["attrs"]["datasource"] = g.value("datasource")
        for part in ("id", "parameters", "views"):
            if g.flip(3):
                d["attrs"]["datasource"].pop(part)
    elif k == 2:
        d, kind = g.node(g.pick(list(spec.NODES))), "node"
    else:
        d, kind = g.doc(), "node"
    return {"kind": kind, "d": d, "type_given": bool(g.flip()), "objects": bool(g.flip()), "share": bool(g.flip())}


def cases():
    return built(_case, wild=True, loose=14, nulls=25, extras=3, bad=8)


def build_attrs(cls, d, objects, note):
    kw = dict(d)
    if objects and kw.get("datasource") is not None:
        note("datasource")
        ds = dict(kw["datasource"])
        if "views" in ds:
            ds["views"] = [call("view", api.NodeBlockCardAttrsDatasourceView, **v) for v in ds["views"]]
        kw["datasource"] = call("datasource", api.NodeBlockCardAttrsDatasource, **ds)
    return call("%s(...)" % cls.__name__, cls, **kw)


def build(d, mark, case, note, made=None):
    """Builds the object; with "share", equal elements are one and the same object."""
    made = {} if made is None else made
    key = (mark, tree.canon(d))
    if case["share"] and key in made:
        note("shared")
        return made[key]
    made[key] = construct(d, mark, case, note, made)
    return made[key]


def construct(d, mark, case, note, made):
    name = tree.class_name(d["type"], mark)
    kw = {k: v for k, v in d.items() if k not in ("type", "attrs", "content", "marks")}
    if case["type_given"]:
        kw["type"] = d["type"]
    if "attrs" in d:
        kw["attrs"] = build_attrs(getattr(api, name + "Attrs"), d["attrs"], case["objects"], note)
    if "content" in d:
        kw["content"] = [build(c, False, case, note, made) for c in d["content"]]
    if "marks" in d:
        kw["marks"] = [build(m, True, case, note, made) for m in d["marks"]]
    return call("%s(...)" % name, getattr(api, name), **kw)


def pure(x, where="result"):
    if x is None or isinstance(x, (bool, int, float, str)):
        require(type(x) in (type(None), bool, int, float, str), "%s holds a %s", where, type(x))
        return
    if isinstance(x, list):
        for i, v in enumerate(x):
            pure(v, "%s[%d]" % (where, i))
        return
    require(isinstance(x, dict), "%s holds a %s, which is not a JSON value", where, type(x).__name__)
    for k, v in x.items():
        require(isinstance(k, str), "%s has a key %r", where, k)
        pure(v, "%s[%r]" % (where, k))


def check(case, note):
    d, mark = case["d"], case["kind"] == "mark"
    obj = build(d, mark, case, note)
    out = to_dict(obj)
    pure(out)
    want = spec.project_mark(d) if mark else spec.project(d)
    text = call("json.dumps(to_dict())", json.dumps, out)
    require(tree.canon(json.loads(text)) == tree.canon(out), "JSON encoding changes the serialisation")
    if tree.canon(out) != tree.canon(want):
        same(out, want, "the serialisation does not hold exactly what was set")
        require(False, "value types changed: %s / %s", tree.canon(out), tree.canon(want))
    if "attrs" in d:
        a = to_dict(obj.attrs)
        pure(a, "attrs")
        require(tree.canon(a) == tree.canon(want["attrs"]), "attrs.to_dict() is %r, not %r", a, want["attrs"])
    parsed = call("parsing", api.parse_mark if mark else api.parse_node, json.loads(text))
    if not (case["objects"] and any("datasource" in n.get("attrs", {}) for n in tree.nodes(d))):
        require(parsed == obj, "the constructed object is not equal to the one parsed from its serialisation")
    require(tree.canon(to_dict(parsed)) == tree.canon(want), "parsing and serialising again changes it")
    if not mark:
        md1, md2 = [_md(x) for x in (obj, parsed)]
        require(md1 == md2, "constructed and parsed object render differently: %r / %r", md1, md2)
    note("root:" + ("mark" if mark else d["type"]), "given type" if case["type_given"] else "default type")
    note.nontrivial("attrs" in d or len(d.get("content", ())) > 0)


def _md(obj):
    try:
        return "ok", obj.to_markdown()
    except Exception as e:
        return type(e).__name__, str(e)
