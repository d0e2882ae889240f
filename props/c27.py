import base64
import copy
import dataclasses
import pickle

from lib import pool, spec, tree
from lib.gen import built
from lib.sut import api, call, outcome, parse, require

RULE = ("A document, node or mark and its copies: copy.copy, copy.deepcopy, dataclasses.replace, pickle in every protocol, "
        "and pickle read in another process. Each copy must be equal, hash alike, serialise, render and type-test alike, "
        "and a deep copy must share nothing that can change. An error (unimplemented type, missing field, failing "
        "conversion) is copied and pickled likewise. Non-trivial: at least two elements or attributes, or an error.")
ASSUMPTIONS = ["an object is hashable unless it holds a list or dictionary"]
EXAMPLES = {"quick": 1250, "thorough": 24000}
REQUIRED_CLASSES = ["object", "mark", "other process", "hashable", "unimplemented", "missing field", "conversion",
                    "replaced field", "deep copy changed"]
SERVER = []


def _case(g):
    k = g.int(0, 8)
    if k == 0:
        t = g.pick(["bodiedExtension", "", "zz", "strong", "paragraph", "a'b", "{x}", "%s", "é\n", "None"])
        mark = bool(g.flip())
        while t in (spec.MARKS if mark else spec.NODES):
            t += "_"
        return {"kind": "unimplemented", "mark": mark, "d": {"type": t, "attrs": {"a": [1]}}}
    if k == 1:
        return {"kind": "missing", "d": {"type": g.pick(["text", "mention", "heading", "date", "doc", "media", "panel"])}}
    if k == 2:
        return {"kind": "mark", "d": g.mark(g.pick(list(spec.MARKS)))}
    d = g.doc(hi=4) if g.flip() else g.node(g.pick(list(spec.NODES)))
    return {"kind": "node", "d": d, "remote": bool(g.flip(4)), "at": g.int(0, 200)}


def cases():
    return built(_case, wild=True, loose=14, bad=12, extras=2)


def copiers(deep=True):
    yield "copy.copy", copy.copy
    yield "copy.deepcopy", copy.deepcopy
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle protocol %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))


def same_error(a, b, how):
    require(type(a) is type(b), "%s of %s is %s", how, type(a).__name__, type(b).__name__)
    require(str(a) == str(b), "%s of the error says %r instead of %r", how, str(b), str(a))
    for name in ("type_value", "category"):
        require(getattr(a, name, None) == getattr(b, name, None), "%s of the error has %s %r instead of %r", how, name,
                getattr(b, name, None), getattr(a, name, None))


def error_copies(e):
    e.__cause__ = e.__context__ = None
    if isinstance(e, (api.ParamError, api.UnimplementedTypeError)):
        e.zz_note = ["where"]
    for how, fn in copiers():
        c = call("%s of %s" % (how, type(e).__name__), fn, e)
        same_error(e, c, how)
        require(getattr(c, "zz_note", None) == getattr(e, "zz_note", None), "%s of the error lost what was noted on it", how)


def everything(obj, mark):
    out = [call("serialising a copy", obj.to_dict), repr(obj)]
    if mark:
        out.append(outcome(obj.to_markdown, "some |text`")[1])
    else:
        for flag in (False, True):
            kind, value = outcome(obj.to_markdown, ignore_error=flag)
            out.append([kind, value if kind == "ok" else [type(value).__name__, str(value)]])
    return out


def hashes(obj, other, note):
    kind, h = outcome(hash, obj)
    if kind == "ok":
        note("hashable")
        require(hash(other) == h, "equal objects have different hashes")
    else:
        require(outcome(hash, other)[0] == "err", "of two equal objects one is hashable")


def objects(obj):
    yield obj
    for f in dataclasses.fields(obj):
        v = getattr(obj, f.name)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, api.Base):
                yield from objects(x)


def change_all(obj):
    """Changes everything inside that can change; returns how much."""
    n = 0
    for x in objects(obj):
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            if isinstance(v, list):
                v.append("zz")
                n += 1
            elif isinstance(v, dict):
                v["zz"] = 1
                n += 1
    return n


def check(case, note):
    kind, d = case["kind"], case["d"]
    if kind == "unimplemented":
        note("unimplemented")
        state, e = outcome(api.parse_mark if case["mark"] else api.parse_node, d)
        require(state == "err" and isinstance(e, api.UnimplementedTypeError), "type %r was parsed", d["type"])
        error_copies(e)
        note.nontrivial()
        return
    if kind == "missing":
        note("missing field")
        state, e = outcome(api.parse_node, d)
        require(state == "err" and isinstance(e, api.ParamError), "%r was parsed", d)
        error_copies(e)
        note.nontrivial()
        return
    mark = kind == "mark"
    note("mark" if mark else "object")
    obj = call("parsing", api.parse_mark, d) if mark else parse(d)
    want = everything(obj, mark)
    if not mark:
        state, e = outcome(obj.to_markdown)
        if state == "err":
            note("conversion")
            error_copies(e)
    for how, fn in list(copiers()) + [("dataclasses.replace", dataclasses.replace)]:
        c = call(how, fn, obj)
        require(type(c) is type(obj) and c == obj and obj == c and not c != obj, "%s is not equal to the original", how)
        got = everything(c, mark)
        require(got == want, "%s behaves differently\n  got : %r\n  want: %r", how, got, want)
        for x, y in zip(objects(obj), objects(c)):
            hashes(x, y, note)
            require(type(x) is type(y), "%s made a %s of a %s", how, type(y).__name__, type(x).__name__)
        require(c.is_type_of(api.TypeEnum[d["type"]]) is True, "%s has another type", how)
    # a deep copy shares nothing
    for how, fn in (("copy.deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        if change_all(fn(obj)):
            note("deep copy changed")
        require(everything(obj, mark) == want, "changing a copy made by %s changed the original", how)
    # a copy with one field changed
    name = "attrs" if mark else "content"
    if any(f.name == name for f in dataclasses.fields(obj)) and name in d:
        note("replaced field")
        value = dataclasses.replace(obj.attrs) if mark else list(getattr(obj, name))[:-1]
        c = call("dataclasses.replace", dataclasses.replace, obj, **{name: value})
        require(getattr(c, name) is value, "the replaced field does not hold the new value")
        smaller = tree.clone(d)
        if not mark:
            smaller[name] = smaller[name][:-1]
        again = api.parse_mark(smaller) if mark else parse(smaller)
        require(c == again and everything(c, mark) == everything(again, mark),
                "an object with a replaced field behaves differently from one parsed like that")
        require(everything(obj, mark) == want, "replacing a field changed the original")
    if case.get("remote"):
        note("other process")
        if not SERVER:
            SERVER.append(pool.Server({"TZ": "Asia/Tokyo", "PYTHONHASHSEED": "77"}))
        got = SERVER[0].ask({"pickle": base64.b64encode(pickle.dumps(obj)).decode(), "d": d})
        for res in got:
            if len(res) == 5:
                bad = res.pop(3)
                require(bad is True, "unpickled in another process and parsed there: %s", bad)
        fresh = SERVER[0].ask([d])
        require(got == fresh, "unpickled in another process\n  got : %r\n  parsed there: %r", got, fresh)
    note.nontrivial(tree.size(d) > 1 if not mark else "attrs" in d)
