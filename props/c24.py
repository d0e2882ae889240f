from lib import spec, tree
from lib.gen import built
from lib.sut import api, call, require, same

RULE = ("A document, node or mark of any type, parsed through the generic parser and through its class: the class of every "
        "node, mark and attribute object in the tree, the values of all fields, and type tests against single types and "
        "random candidate lists. Non-trivial: at least one child, mark or attribute object.")
ASSUMPTIONS = ["the public class of type fooBar is NodeFooBar or MarkFooBar and its attributes class NodeFooBarAttrs or "
               "MarkFooBarAttrs (release notes, api.rst)"]
EXAMPLES = {"quick": 1950, "thorough": 32000}
REQUIRED_CLASSES = ["root:mark", "type test", "list type test"] + ["node:" + t for t in spec.NODES] + [
    "mark:" + t for t in spec.MARKS]


def once(note):
    """The public API is complete."""
    for t, s in spec.NODES.items():
        has_class(tree.class_name(t), api.BaseNode, s.attrs is not None)
    for t, a in spec.MARKS.items():
        has_class(tree.class_name(t, True), api.BaseMark, a is not None)
    for name in ("parse_node", "parse_mark", "ParamError", "UnimplementedTypeError", "TypeEnum", "Base", "BaseNode",
                 "BaseMark", "BaseMarkOrNode", "T_NODE", "T_MARK", "T_DATA", "logger", "NodeBlockCardAttrsDatasource",
                 "NodeBlockCardAttrsDatasourceView"):
        require(hasattr(api, name), "%s is not in the public API", name)
    names = {e.value for e in api.TypeEnum}
    for t in list(spec.NODES) + list(spec.MARKS):
        require(t in names, "TypeEnum has no %s", t)
        require(api.TypeEnum(t).name == t, "TypeEnum.%s has value %s", api.TypeEnum(t).name, t)
    note("api complete")


def has_class(name, base, attrs):
    cls = getattr(api, name, None)
    require(isinstance(cls, type) and issubclass(cls, base), "the public API has no class %s", name)
    require(cls.__name__ == name, "%s is called %s", name, cls.__name__)
    if attrs:
        a = getattr(api, name + "Attrs", None)
        require(isinstance(a, type) and issubclass(a, api.Base), "the public API has no class %sAttrs", name)
        require(a.__name__ == name + "Attrs", "%sAttrs is called %s", name, a.__name__)


def _case(g):
    k = g.int(0, 3)
    if k == 0:
        kind, d = "mark", g.mark(g.pick(list(spec.MARKS)))
    elif k == 1:
        kind, d = "node", g.node(g.pick(list(spec.NODES)))
    else:
        kind, d = "node", g.doc()
    everything = list(spec.NODES) + list(spec.MARKS)
    alike = [t for t in everything if d["type"].lower() in t.lower() or t.lower() in d["type"].lower()]
    return {"kind": kind, "d": d, "candidates": [g.pick(everything) for _ in range(g.int(0, g.pick([2, 5, 30])))],
            "own": bool(g.flip(3)), "one": g.pick(alike if g.flip() else everything)}


def cases():
    return built(_case, wild=True, loose=14, bad=10, extras=3, nulls=12)


def check_element(obj, d, mark, case, note):
    t = d["type"]
    name = tree.class_name(t, mark)
    note(("mark:" if mark else "node:") + t)
    require(type(obj) is getattr(api, name), "%s %r is a %s", "mark" if mark else "node", t, type(obj).__name__)
    require(obj.type == t, "type %r became %r", t, obj.type)
    kinds = spec.MARKS[t] if mark else spec.NODES[t].attrs
    if "attrs" in d and kinds is not None:
        require(type(obj.attrs) is getattr(api, name + "Attrs"), "attrs of %r is a %s", t, type(obj.attrs).__name__)
        for k, v in d["attrs"].items():
            if k in kinds:
                got = getattr(obj.attrs, k)
                require(got == v and type(got) is type(v), "%s.attrs.%s is %r, not %r", t, k, got, v)
                require(obj.attrs.is_opt(got) is False, "%s.attrs.%s is set but counts as unset", t, k)
        for k, (req, _) in kinds.items():
            if k not in d["attrs"]:
                require(obj.attrs.is_opt(getattr(obj.attrs, k)) is True, "%s.attrs.%s is unset but holds %r", t, k,
                        getattr(obj.attrs, k))
        if t == "media" and not mark:
            for what in ("file", "link", "external"):
                require(getattr(obj.attrs, "is_%s_type" % what)() is (d["attrs"]["type"] == what),
                        "is media of type %r %s?", d["attrs"]["type"], what)
    for k in ("attrs", "content", "marks"):
        if hasattr(obj, k):
            require(obj.is_opt(getattr(obj, k)) is (k not in d), "%s.%s unset?", t, k)
    # type tests
    E = api.TypeEnum
    cand = list(case["candidates"])
    if case["own"]:
        cand.insert(len(cand) // 2 if len(d) % 2 else len(cand), t)
    require(obj.is_type_of(E[t]) is True, "%s is not of its own type", t)
    require(obj.is_type_of([E[t]]) is True, "%s is not of its own type in a list", t)
    require(obj.is_type_of(E[case["one"]]) is (case["one"] == t), "is %s a %s?", t, case["one"])
    types = [E[c] for c in cand]
    for _ in range(2):  # the caller's list is only looked at, and can be used again
        require(obj.is_type_of(types) is (t in cand), "is %s one of %r?", t, cand)
        require(types == [E[c] for c in cand], "the list of types %r became %r", cand, types)
    note("type test", "list type test")
    if mark:
        return
    for f in spec.NODES[t].fields:
        if f in d:
            require(getattr(obj, f) == d[f], "%s.%s is %r, not %r", t, f, getattr(obj, f), d[f])
    if t == "doc" and "version" not in d:
        require(obj.version == 1, "version defaults to %r", obj.version)
    for field in ("content", "marks"):
        if field in d:
            got = getattr(obj, field)
            require(isinstance(got, list) and len(got) == len(d[field]), "%s.%s is %r", t, field, got)
            for o, c in zip(got, d[field]):
                check_element(o, c, field == "marks", case, note)


def check(case, note):
    d, mark = case["d"], case["kind"] == "mark"
    if mark:
        note("root:mark")
    cls = getattr(api, tree.class_name(d["type"], mark))
    for parse in (api.parse_mark if mark else api.parse_node, cls.from_dict):
        check_element(call("parsing", parse, d), d, mark, case, note)
    note.nontrivial("attrs" in d or bool(d.get("content")) or bool(d.get("marks")))
