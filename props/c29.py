"""Classes that users derive from the exported base classes."""
import dataclasses
import typing as T

from func_args.api import OPT, REQ

from lib import ref, spec, tree
from lib.gen import JSON_VALUES, built
from lib.sut import Capture, api, call, outcome, require, same, settings, to_dict

RULE = ("Generated model classes: a node, mark or plain class on the exported base classes with any required, optional and "
        "defaulted fields, its own attributes class (with a further nested value), content and marks; and a data "
        "dictionary with any of the fields, unknown fields, built-in and unimplemented children. Parsed, constructed, "
        "serialised, compared, rendered alone and inside built-in containers; also subclasses of those classes and of "
        "built-in ones with a further field. Non-trivial: at least two fields or a child.")
ASSUMPTIONS = ["fields without value hold OPT, required ones are declared with REQ (docs/source/02-Maintainer-Guide/03)"]
EXAMPLES = {"quick": 1750, "thorough": 32000}
REQUIRED_CLASSES = ["node", "mark", "plain", "attrs class", "required missing", "required attribute missing", "unknown",
                    "content", "marks", "skipped", "default", "in a container", "no to_markdown", "own to_markdown",
                    "subclass", "built-in subclass", "data attrs", "class variable",
                    "own conversion of attrs", "own conversion inside"]
NAMES = ["a", "b2", "localId", "text", "level", "state", "url", "fooBar", "_hidden", "order", "version", "data", "name", "items"]
DATA = {"dict": dict, "dict[str, Any]": dict[str, T.Any], "Dict[str, Any]": T.Dict[str, T.Any], "T_DATA": api.T_DATA,
        "Any": T.Any, "Mapping": T.Mapping[str, T.Any], "Optional": T.Optional[dict], "object": object}
REQUIRED_CLASSES += ["attrs: " + k for k in DATA]
CONTAINERS = ["doc", "paragraph", "panel", "listItem", "tableCell", "expand", "taskItem", "decisionItem", "blockquote", "heading"]


def _fields(g):
    out = []
    for name in sorted({g.pick(NAMES) for _ in range(g.int(0, 5))}):
        out.append([name, g.pick(["req", "opt", "default", "opt"]), g.pick(JSON_VALUES)])
    return out


def _data(g, fields):
    out = {}
    for name, kind, _ in fields:
        if g.int(0, 7) > (0 if kind == "req" else 3):
            out[name] = g.pick(JSON_VALUES)
    if g.flip(3):
        out["zz-" + g.pick(NAMES)] = g.pick(JSON_VALUES)
    return out


def _case(g):
    kind = g.pick(["node", "node", "mark", "plain"])
    fields, afields = _fields(g), _fields(g)
    d = _data(g, fields)
    case = {"kind": kind, "type": g.pick(["zzz", "my-node", "paragraph", ""]), "fields": fields,
            "attrs": None, "content": False, "marks": False}
    if kind != "plain":
        k = g.int(0, 3)
        if k:
            case["attrs"] = {"req": bool(g.flip()), "fields": afields, "data": k == 1,
                             "as": g.pick(list(DATA)),
                             "name": g.pick(["OwnAttrs", "Settings", "A", "ownattrs", "Base", "Attrs_", "Node"])}
            if g.int(0, 3):
                d["attrs"] = _data(g, afields)
        if g.flip():
            d["type"] = case["type"]
    if kind == "node":
        if g.flip():
            case["content"] = True
            g.fuel = g.int(1, 6)
            d["content"] = [g.node(g.pick(["text", "paragraph", "rule", "bulletList", "mention", "text"]), 2)
                            for _ in range(g.int(0, 3))]
            if g.flip(4):
                d["content"].insert(g.int(0, len(d["content"])), {"type": "zzz"})
        if g.flip():
            case["marks"] = True
            d["marks"] = g.marks(spec.TEXT_MARKS)
            if g.flip(4):
                d["marks"].insert(g.int(0, len(d["marks"])), {"type": "zzz"})
        if not case["content"] and g.flip(6):
            d["content"] = [{"type": "text"}]          # a field the class does not have
    free = [n for n in NAMES if n not in {f[0] for f in fields} and n != "version"]
    case["class variable"] = g.pick(free) if g.flip() else None
    if case["class variable"] and g.flip():
        d[case["class variable"]] = g.pick(JSON_VALUES)
    case.update(d=d, render=g.pick([None, "", "own text", "a\nb"]), extra=g.pick(NAMES), container=g.pick(CONTAINERS),
                at=g.int(0, 2), base=g.pick(list(spec.NODES)), value=g.pick(JSON_VALUES))
    return case


def cases():
    return built(_case, wild=True, loose=14, extras=2)


def field(kind, default):
    if kind == "req":
        return REQ
    if kind == "opt":
        return OPT
    return dataclasses.field(default_factory=lambda: tree.clone(default))


def model(name, base, fields, **more):
    """A frozen dataclass, as one would write it."""
    space = {"__annotations__": {}, "__module__": __name__, "__doc__": "Made by the check."}
    for fname, ann, value in fields:
        space["__annotations__"][fname] = ann
        space[fname] = value
    space.update(more)
    return dataclasses.dataclass(frozen=True)(type(name, (base,), space))


def build(case):
    base = {"node": api.BaseNode, "mark": api.BaseMark, "plain": api.Base}[case["kind"]]
    attrs = None
    fields = []
    if case["kind"] != "plain":
        fields.append(("type", str, case["type"]))
    if case["attrs"]:
        attrs = DATA[case["attrs"]["as"]] if case["attrs"]["data"] else model(
            case["attrs"]["name"], api.Base, [(n, T.Any, field(k, v)) for n, k, v in case["attrs"]["fields"]])
        fields.append(("attrs", attrs, REQ if case["attrs"]["req"] else OPT))
    if case["content"]:
        fields.append(("content", T.List[T.Any], OPT))
    if case["marks"]:
        fields.append(("marks", T.List[T.Any], OPT))
    fields += [(n, T.Any, field(k, v)) for n, k, v in case["fields"]]
    if case["class variable"]:
        fields.append((case["class variable"], T.ClassVar[T.Any], "of the class"))
    return model("Own", base, fields), attrs


def known(fields, d):
    out = {}
    for name, kind, default in fields:
        if name in d:
            out[name] = d[name]
        elif kind == "default":
            out[name] = default
    return out


def missing(fields, d):
    return [n for n, k, _ in fields if k == "req" and n not in d]


def projected(case):
    d = case["d"]
    out = known(case["fields"], d)
    if case["kind"] != "plain":
        out["type"] = d.get("type", case["type"])
    if case["attrs"] and "attrs" in d:
        out["attrs"] = d["attrs"] if case["attrs"]["data"] else known(case["attrs"]["fields"], d["attrs"])
    if case["content"] and "content" in d:
        out["content"] = [spec.project(c) for c in d["content"] if c["type"] in spec.NODES]
    if case["marks"] and "marks" in d:
        out["marks"] = [spec.project_mark(m) for m in d["marks"] if m["type"] in spec.MARKS]
    return out


def check(case, note):
    settings.WARN_UNIMPLEMENTED_TYPE = True
    d, kind = case["d"], case["kind"]
    cls, attrs_cls = build(case)
    note(kind)
    a = case["attrs"]
    if a:
        note("data attrs" if a["data"] else "attrs class", *(["attrs: " + a["as"]] if a["data"] else []))
    lacks = missing(case["fields"], d)
    if a and a["req"] and "attrs" not in d:
        lacks.append("attrs")
    attrs_lacks = missing(a["fields"], d["attrs"]) if a and not a["data"] and "attrs" in d else []
    before = tree.clone(d)
    with Capture() as cap:
        state, obj = outcome(cls.from_dict, d)
    require(d == before, "parsing changed its input")
    note.nontrivial(len(d) > 1)
    if lacks or attrs_lacks:
        note("required missing" if lacks else "required attribute missing")
        require(state == "err" and isinstance(obj, api.ParamError), "parsed without %r: %r", lacks + attrs_lacks, obj)
        if lacks:
            kwargs = {k: v for k, v in known(case["fields"], d).items()}
            state, e = outcome(cls, **kwargs)
            require(state == "err" and isinstance(e, api.ParamError), "constructed without %r: %r", lacks, e)
        return
    require(state == "ok", "parsing failed with %s: %s", type(obj).__name__, obj)
    want = projected(case)
    if set(d) - set(want):
        note("unknown")
    if any(k == "default" and n not in d for n, k, _ in case["fields"]):
        note("default")
    skipped = [c["type"] for c in d.get("content", ()) if case["content"] and c["type"] not in spec.NODES]
    skipped += [m["type"] for m in d.get("marks", ()) if case["marks"] and m["type"] not in spec.MARKS]
    if skipped:
        note("skipped")
    require(len(cap.records) == len(skipped), "%d warnings for %d skipped elements", len(cap.records), len(skipped))
    if case["class variable"]:
        note("class variable")
        require(getattr(obj, case["class variable"]) == "of the class", "a class variable was taken for a field")
    require(type(obj) is cls, "parsed to a %s", type(obj).__name__)
    got = to_dict(obj)
    require(tree.json_equal(got, want), "serialised as\n  %r\nnot\n  %r", got, want)
    require(tree.json_equal(call("to_kwargs", obj.to_kwargs), want), "to_kwargs gives %r", obj.to_kwargs())
    require(list(cls.get_fields()) == [f.name for f in dataclasses.fields(cls)] and
            all(cls.get_fields()[f.name] is f for f in dataclasses.fields(cls)), "get_fields gives %r", cls.get_fields())
    for n, k, _ in case["fields"]:
        require(obj.is_opt(getattr(obj, n)) is (k == "opt" and n not in d), "is field %s unset?", n)
    if "attrs" in want and not a["data"]:
        require(type(obj.attrs) is attrs_cls, "attrs are a %s", type(obj.attrs).__name__)
    if case["content"] and "content" in want:
        note("content")
        require([type(c).__name__ for c in obj.content] == [tree.class_name(c["type"]) for c in want["content"]],
                "children are %r", obj.content)
    if case["marks"] and "marks" in want:
        note("marks")
        require([type(m).__name__ for m in obj.marks] == [tree.class_name(m["type"], True) for m in want["marks"]],
                "marks are %r", obj.marks)
    require(tree.json_equal(to_dict(call("parsing the result", cls.from_dict, got)), want), "the second round differs")
    require(call("parsing", cls.from_dict, d) == obj, "two parses are unequal")
    # a subclass with one more field
    sub = model("OwnSub", cls, [("more_" + case["extra"], T.Any, OPT)])
    d2 = dict(d, **{"more_" + case["extra"]: case["value"]})
    with Capture():
        s = call("parsing a subclass", sub.from_dict, d2)
        s0 = call("parsing a subclass", sub.from_dict, d)
    require(tree.json_equal(to_dict(s), dict(want, **{"more_" + case["extra"]: case["value"]})),
            "the subclass serialises as %r", to_dict(s))
    require(tree.json_equal(to_dict(s0), want), "the subclass serialises as %r", to_dict(s0))
    with Capture():
        require(tree.json_equal(to_dict(cls.from_dict(d2)), want), "the base class knows the subclass's field")
    note("subclass")
    builtin_subclass(case, note)
    if kind != "plain":
        overriding(case, cls, obj, want, note)
    if kind == "mark":
        require(call("rendering", obj.to_markdown, "x |*`\n y ") == "x |*`\n y ", "a mark without to_markdown changes the text")
        text = api.NodeText(text="w", marks=[obj])
        require(call("rendering", text.to_markdown) == "w", "a mark without to_markdown changes the text")
        own = model("OwnMark", cls, [], to_markdown=lambda self, text: "<" + text + ">")
        with Capture():
            text = api.NodeText(text="w", marks=[own.from_dict(d), api.MarkStrong()])
        require(call("rendering", text.to_markdown) == "**<w>**", "own marks are not applied in order: %r", text.to_markdown())
        note("own to_markdown")
    if kind == "node":
        rendered(case, obj, cls, note)


def overriding(case, cls, obj, want, note):
    """Own from_dict and to_dict of an attributes class, a child or a mark are the ones that are used."""
    a = case["attrs"]
    if a and not a["data"] and "attrs" in want:
        note("own conversion of attrs")
        base = dict((f.name, f.type) for f in dataclasses.fields(cls))["attrs"]

        def from_dict(c, dct):
            return super(wire, c).from_dict({k[5:]: v for k, v in dct.items()})

        def write(self):
            return {"wire-" + k: v for k, v in super(wire, self).to_dict().items()}

        wire = model("Wire", base, [], from_dict=classmethod(from_dict), to_dict=write)
        outer = model("Outer", cls, [("attrs", wire, REQ if a["req"] else OPT)])
        sent = dict(case["d"], attrs={"wire-" + k: v for k, v in case["d"]["attrs"].items()})
        with Capture():
            x = call("parsing with an own from_dict of the attributes", outer.from_dict, sent)
        require(type(x.attrs) is wire and tree.json_equal({f.name: getattr(x.attrs, f.name) for f in dataclasses.fields(x.attrs)
                                                            if not x.is_opt(getattr(x.attrs, f.name))}, want["attrs"]),
                "the own from_dict of the attributes gives %r", x.attrs)
        full = dict(want, attrs={"wire-" + k: v for k, v in want["attrs"].items()})
        require(tree.json_equal(to_dict(x), full), "the own to_dict of the attributes is not used: %r", to_dict(x))
    note("own conversion inside")
    marked = model("Marked", cls, [], to_dict=lambda self: {"own": 1})
    with Capture():
        inner = marked.from_dict(case["d"])
    if case["kind"] == "mark":
        text = api.NodeText(text="w", marks=[api.MarkStrong(), inner])
        require(to_dict(text) == {"type": "text", "text": "w", "marks": [{"type": "strong"}, {"own": 1}]},
                "the own to_dict of a mark is not used: %r", to_dict(text))
    else:
        p = api.NodePanel(attrs=api.NodePanelAttrs(panelType="info"), content=[api.NodeParagraph(content=[inner]), inner])
        require(to_dict(p)["content"] == [{"type": "paragraph", "content": [{"own": 1}]}, {"own": 1}],
                "the own to_dict of a node is not used: %r", to_dict(p))


def rendered(case, obj, cls, note):
    for flag in (False, True):
        state, e = outcome(obj.to_markdown, ignore_error=flag)
        require(state == "err" and isinstance(e, NotImplementedError) and "Own" in str(e),
                "a node class without to_markdown renders as %r", e)
    word = {"type": "text", "text": "w0001w"}
    blocks = case["container"] in ("doc", "panel", "listItem", "tableCell", "expand", "blockquote")
    neighbours = [{"type": "paragraph", "content": [word]}, {"type": "paragraph", "content": [dict(word, text="w0002w")]}]
    if not blocks:
        neighbours = [word, dict(word, text="w0002w")]
    attrs = {"panel": {"panelType": "info"}, "taskItem": {"localId": "", "state": "TODO"}, "heading": {"level": 2},
             "decisionItem": {"localId": "", "state": "DECIDED"}}.get(case["container"])
    raw = {"type": case["container"], "content": neighbours}
    if attrs:
        raw["attrs"] = attrs
    if case["container"] == "doc":
        raw["version"] = 1
    box = api.parse_node(raw)
    kids = list(box.content)
    kids.insert(case["at"], obj)
    full = dataclasses.replace(box, content=kids)
    note("in a container", "no to_markdown")
    state, e = outcome(full.to_markdown)
    require(state == "err" and isinstance(e, NotImplementedError), "a node class without to_markdown in a %s: %r",
            case["container"], e)
    same(call("lenient rendering", full.to_markdown, ignore_error=True), box.to_markdown(),
         "lenient rendering with a node class without to_markdown in a " + case["container"])
    if case["render"] is not None:
        text = case["render"]
        seen = []

        def to_markdown(self, ignore_error=False):
            seen.append(ignore_error)
            return text

        with Capture():
            own = model("OwnNode", cls, [], to_markdown=to_markdown).from_dict(case["d"])
        kids[case["at"]] = own
        full = dataclasses.replace(box, content=kids)
        # the same text from a text node
        inline = api.NodeText(text=text)
        kids2 = list(kids)
        kids2[case["at"]] = inline
        for flag in (False, True):
            del seen[:]
            got = call("rendering", full.to_markdown, ignore_error=flag)
            want = dataclasses.replace(box, content=kids2).to_markdown(ignore_error=flag)
            same(got, want, "own node class in a " + case["container"])
            require(set(seen) == {flag}, "ignore_error=%r reaches a nested node as %r", flag, seen)
        note("own to_markdown")


def builtin_subclass(case, note):
    """A built-in class with one more optional field keeps working."""
    t = case["base"]
    builtin = getattr(api, tree.class_name(t))
    name = "zz_" + case["extra"]
    sub = model("Sub", builtin, [(name, T.Any, OPT)])
    d = {"type": t}
    s = spec.NODES[t]
    for f, (req, _) in s.fields.items():
        d[f] = 1 if f == "version" else "w"
    if s.attrs is not None:
        d["attrs"] = {"level": 1, "timestamp": "0", "url": "u", "type": "file"}.copy()
        d["attrs"] = {k: d["attrs"].get(k, "v") for k, (req, _) in s.attrs.items() if req}
    if s.content is not None:
        d["content"] = []
    x = call("parsing a subclass of %s" % t, sub.from_dict, dict(d, **{name: case["value"]}))
    require(tree.json_equal(to_dict(x), dict(spec.project(d), **{name: case["value"]})), "a subclass of %s serialises as %r",
            t, to_dict(x))
    y = api.parse_node(dict(d, **{name: case["value"]}))
    require(type(y) is builtin and tree.json_equal(to_dict(y), spec.project(d)), "%s is affected by its subclass", t)
    require(outcome(x.to_markdown)[1] == outcome(y.to_markdown)[1] or outcome(y.to_markdown)[0] == "err",
            "a subclass of %s renders otherwise", t)
    note("built-in subclass")
