from lib import spec, tree
from lib.gen import built
from lib.sut import api, call, outcome, require

RULE = ("A document, node or mark from which exactly one required field of one element or attribute object was "
        "removed, or the type of one child or mark, or whose root type is unimplemented, or nothing (control); "
        "optionally with skipped unimplemented elements beside it. Non-trivial: something was removed.")
ASSUMPTIONS = ["lib/spec.py states which fields are required (from the field documentation of each class)"]
EXAMPLES = {"quick": 2620, "thorough": 40000}
REQUIRED_CLASSES = ["field", "type", "unimplemented", "control", "constructor", "in mark", "in attrs", "beside skipped"]

ALIENS = ["bodiedExtension", "placeholder", "layoutSection", "zz"]


def sites(n, path=()):
    """(path, where, key): required fields that are present; where is () or a key path inside the node."""
    s = spec.NODES[n["type"]]
    for f, (req, _) in s.fields.items():
        if req:
            yield path, [], f
    if s.attrs is not None and "attrs" in n:
        if s.attrs_required:
            yield path, [], "attrs"
        for k, (req, _) in s.attrs.items():
            if req:
                yield path, ["attrs"], k
    if s.content_required:
        yield path, [], "content"
    for i, m in enumerate(n.get("marks", ())):
        for where, k in mark_sites(m):
            yield path, ["marks", i] + where, k
    for i, c in enumerate(n.get("content", ())):
        yield from sites(c, path + (i,))


def mark_sites(m):
    kinds = spec.MARKS[m["type"]]
    if kinds is not None:
        yield [], "attrs"
        for k, (req, _) in kinds.items():
            if req:
                yield ["attrs"], k


def children(n, path=()):
    for i, m in enumerate(n.get("marks", ())):
        yield path, ["marks", i]
    for i, c in enumerate(n.get("content", ())):
        yield path, ["content", i]
        yield from children(c, path + (i,))


def dig(n, path, where):
    for i in path:
        n = n["content"][i]
    for k in where:
        n = n[k]
    return n


def with_aliens(g, n):
    """Skipped elements around everything; appended, so that positions stay valid."""
    if isinstance(n.get("content"), list):
        for c in n["content"]:
            with_aliens(g, c)
        if g.flip(3):
            n["content"].append({"type": g.pick(ALIENS)})
    if isinstance(n.get("marks"), list) and g.flip(3):
        n["marks"].append({"type": "zz"})


def _case(g):
    k = g.int(0, 9)
    if k == 0:
        kind = g.pick(["node", "mark"])
        t = g.pick(spec.UNIMPLEMENTED_NODES + ["zz", "Text", ""] +
                   (list(spec.MARKS) if kind == "node" else list(spec.NODES)))
        if kind == "node" and t in spec.NODES or kind == "mark" and t in spec.MARKS:
            t = "zz-" + t
        return {"do": "unimplemented", "kind": kind, "d": {"type": t, "attrs": {"id": "x"}, "content": []}}
    if k in (1, 2):
        d = g.mark(g.pick(list(spec.MARKS)))
        found = list(mark_sites(d))
        if found:
            where, key = g.pick(found)
            del dig(d, (), where)[key]
            return {"do": "field", "kind": "mark", "d": d, "root": d["type"], "where": where, "key": key, "path": []}
        return {"do": "control", "kind": "mark", "d": d}
    d = g.node(g.pick(list(spec.NODES))) if k in (3, 4) else g.doc()
    aliens = bool(g.flip(3))
    out = {"do": "control", "kind": "node", "d": d, "aliens": aliens}
    found = list(sites(d))
    kids = list(children(d))
    if k == 9 and kids:
        path, where = g.pick(kids)
        with_type = dig(d, path, where)
        del with_type["type"]
        out.update(do="type", path=list(path), where=where)
        if aliens:
            _aliens_beside(g, d)
        return out
    if k == 8 or not found:
        if aliens:
            with_aliens(g, d)
        return out
    path, where, key = g.pick(found)
    target = dig(d, path, where)
    out.update(do="field", path=list(path), where=where, key=key, root=dig(d, path, [])["type"])
    del target[key]
    if aliens:
        _aliens_beside(g, d)
    return out


def _aliens_beside(g, d):
    for n in list(tree.nodes(d)):
        if isinstance(n.get("content"), list) and g.flip(3):
            n["content"].append({"type": g.pick(ALIENS)})
        if isinstance(n.get("marks"), list) and g.flip(3):
            n["marks"].append({"type": "zz"})


def cases():
    return built(_case, wild=True, loose=14, extras=3)


def construct(cls, kw):
    return outcome(cls, **kw)


def check(case, note):
    d, mark = case["d"], case["kind"] == "mark"
    parse = api.parse_mark if mark else api.parse_node
    do = case["do"]
    note(do)
    if do == "control":
        call("parsing a complete element", parse, d)
        return
    note.nontrivial()
    got, e = outcome(parse, d)
    if do == "unimplemented":
        require(got == "err", "an unimplemented %s type %r parses to %r", case["kind"], d["type"], e)
        require(isinstance(e, api.UnimplementedTypeError), "an unimplemented type raises %s", type(e).__name__)
        require(e.type_value == d["type"] and e.category == case["kind"], "the error says %r / %r", e.type_value,
                e.category)
        require(d["type"] in str(e), "the message does not name the type: %s", e)
        require(case["kind"] in str(e).replace(d["type"], "").lower(), "the message does not name the category: %s", e)
        return
    if case.get("aliens"):
        note("beside skipped")
    if do == "type":
        require(got == "err", "an element without type is dropped: %r", case)
        require(not isinstance(e, api.UnimplementedTypeError), "an element without type is taken for an unimplemented one")
        return
    where = case["where"]
    if "marks" in where or mark:
        note("in mark")
    if "attrs" in where:
        note("in attrs")
    if case["key"] == "attrs":
        note("attrs missing")
    require(got == "err", "%s without required %s %s parses", case["root"], where, case["key"])
    require(isinstance(e, api.ParamError), "%s without required %s %s raises %s: %s", case["root"], where, case["key"],
            type(e).__name__, e)
    # the direct constructor call
    note("constructor")
    element = dig(d, case["path"], [])
    el_mark = mark
    if "marks" in where:
        element, el_mark = element["marks"][where[1]], True
        where = where[2:]
    name = tree.class_name(element["type"], el_mark)
    if where == ["attrs"]:
        name += "Attrs"
        kw = {k: v for k, v in element["attrs"].items()}
    else:
        kw = {k: v for k, v in element.items() if k not in ("type", "attrs", "content", "marks")}
        if "attrs" in element:
            kw["attrs"] = call("attrs", getattr(api, tree.class_name(element["type"], el_mark) + "Attrs"),
                               **element["attrs"])
        if "content" in element:
            kw["content"] = []
    got, e = construct(getattr(api, name), kw)
    require(got == "err", "%s(...) without %s succeeds", name, case["key"])
    require(isinstance(e, api.ParamError), "%s(...) without %s raises %s: %s", name, case["key"], type(e).__name__, e)
