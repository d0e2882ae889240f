import collections
import copy

from hypothesis import strategies as st

from lib import spec, tree
from lib.gen import built
from lib.sut import api, call, outcome, require, same, to_dict

RULE = ("A whole document, a node of any type or a mark of any type, with arbitrary text, attributes, falsy values "
        "and absent or empty parts. Non-trivial: at least two elements or attributes, and distinct as JSON.")
ASSUMPTIONS = ["lib/spec.py states which fields the documentation gives each type",
               "attribute values are drawn from the kinds the ADF schema allows, and null for optional ones"]
EXAMPLES = {"quick": 1950, "thorough": 32000}
REQUIRED_CLASSES = ["falsy", "root:mark", "root:doc", "depth>=8", "odd values", "keys reversed", "keys sorted", "keys turned, ordered dictionaries"]


def _case(g):
    k = g.int(0, 3)
    if k == 0:
        return {"kind": "node", "d": g.node(g.pick(list(spec.NODES)))}
    if k == 1:
        return {"kind": "mark", "d": g.mark(g.pick(list(spec.MARKS)))}
    return {"kind": "node", "d": g.doc()}


ODD = ["007", "+5", " 5 ", "1e3", "-0", "0x1F", "True", "null", "TODO ", "todo", "NONE", "http://A.example:80/", "a/", "#FFF", "#ffffff",
       "\u00e9", "e\u0301", "\ufb01", "a\r\nb", "\t", "\u00a0", "99999999999999999999", "x" * 300, "00:00", "&amp;", "%20", "\\n", 10 ** 20,
       1e22, -0.0, 0.1, 1e-7, 2 ** 53 + 1, -1, 3.0, 0, 1, True, False, [], {}, [[]], [0, "0", None], {"b": 1, "a": [{}]}, "", "a" * 3]


def _odd(g):
    """Any value in an attribute or text: nothing is checked or changed on the way."""
    case = _case(g)
    d = case["d"]
    slots = [(x["attrs"], k) for x in list(tree.nodes(d) if case["kind"] == "node" else [d]) + [
        m for _, _, m in (tree.marks(d) if case["kind"] == "node" else [])] if isinstance(x.get("attrs"), dict) for k in sorted(x["attrs"])]
    slots += [(x, "text") for x in (tree.nodes(d) if case["kind"] == "node" else []) if isinstance(x.get("text"), str)]
    for _ in range(g.int(1, 4)):
        if slots:
            x, k = g.pick(slots)
            x[k] = copy.deepcopy(g.pick(ODD if k != "text" else [o for o in ODD if isinstance(o, str)]))
            case["odd"] = True
    return case


def cases():
    return st.one_of(built(_odd, wild=True, loose=14, extras=3), built(_case, wild=True, loose=14, nulls=25, extras=2), built(_case, wild=True, loose=14, nulls=25, bad=6, extras=4))


HOW = ["keys reversed", "keys sorted", "keys turned, ordered dictionaries", "keys sorted downwards, ordered dictionaries"]


def reordered(x, how):
    if isinstance(x, list):
        return [reordered(v, how) for v in x]
    if not isinstance(x, dict):
        return x
    keys = list(x)
    keys = [keys[::-1], sorted(keys), keys[1:] + keys[:1], sorted(keys)[::-1]][how]
    return (dict if how < 2 else collections.OrderedDict)((k, reordered(x[k], how)) for k in keys)


def check(case, note):
    d, mark = case["d"], case["kind"] == "mark"
    want = spec.project_mark(d) if mark else spec.project(d)
    generic = api.parse_mark if mark else api.parse_node
    cls = getattr(api, tree.class_name(d["type"], mark))
    if case.get("odd"):
        note("odd values")
    note("root:" + ("mark" if mark else d["type"]))
    for name, parse in (("generic parser", generic), ("class method", cls.from_dict)):
        obj = call("%s on %s" % (name, d["type"]), parse, d)
        out = to_dict(obj)
        if tree.canon(out) != tree.canon(want):
            same(out, want, "%s: serialising the parsed element does not give the input back" % name)
            require(False, "%s: value types changed: %s / %s", name, tree.canon(out), tree.canon(want))
        again = call("parsing the serialisation", parse, out)
        require(again == obj, "%s: parsing the serialisation gives an unequal object", name)
        require(not (again != obj), "%s: both equal and unequal", name)
        require(tree.canon(to_dict(again)) == tree.canon(want), "%s: second serialisation differs", name)
    # JSON objects have no order, and may be any kind of dict
    how = len(tree.canon(d)) % 4
    other = call("parsing with the keys in another order", generic, reordered(d, how))
    require(other == obj, "the order of keys matters (%s)", HOW[how])
    require(tree.canon(to_dict(other)) == tree.canon(want), "the order of keys changes the serialisation (%s): %r", HOW[how], to_dict(other))
    if not mark and not case.get("odd"):     # an object where a text belongs is shown as Python writes it
        a, b = outcome(obj.to_markdown), outcome(other.to_markdown)
        require(a[0] == b[0] and (a[0] == "err" or a[1] == b[1]), "the order of keys changes the Markdown (%s)", HOW[how])
    note(HOW[how])
    if not mark:
        note(*tree.shape(d))
        if tree.falsy_values(d):
            note("falsy")
    note.nontrivial(len(tree.canon(d)) > 40)
