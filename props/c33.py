"""Model: the description a schema is built from says what its report and its generated classes must hold."""
import atexit
import contextlib
import dataclasses
import importlib
import importlib.util
import io
import os
import re
import shutil
import sys
import tempfile
import types
import typing as T

from func_args.api import OPT

from lib.gen import built
from lib.sut import REPO, HarnessError, Violation, require, same

RULE = ("A JSON schema is built from a generated description (node, mark and other definitions, variants, references with and "
        "without cycles, attributes of all types, any order of definitions); the two schema scripts run on it in a scratch copy. "
        "The report is read back and compared with the description; the generated package is imported, its classes inspected "
        "and used. Non-trivial: at least three node definitions and one dependency between nodes.")
ASSUMPTIONS = ["names in schemas are ASCII words in camelCase or snake_case, distinct between nodes and marks; enumerated values are strings"]
EXAMPLES = {"quick": 260, "thorough": 5000}
REQUIRED_CLASSES = ["variant", "cycle", "chain of three", "mark dependency", "other definition", "no type", "existing mixin",
                    "required and optional attrs", "attrs without properties", "merged parts", "special definition",
                    "unknown reference", "several types", "no nodes", "no marks"]

WORDS = ["bullet", "list", "item", "media", "task", "alpha", "code", "link", "sync", "card", "body", "zone", "url", "text", "doc", "h1", "v2x"]
ATTRS = ["url", "localId", "order", "isNumber", "colwidth", "layout", "panelType", "id", "data", "type", "title", "shortName", "a", "z1"]
TYPES = {"string": str, "integer": int, "number": float, "boolean": bool, "array": list, "object": dict[str, T.Any]}
ODD = [{"$ref": "#/definitions/other_thing"}, {"anyOf": [{"type": "string"}]}, {"oneOf": [{"type": "integer"}]}, {}, {"type": "null"},
       {"type": ["string", "null"]}]
SPECIAL = ["inline_node", "code_inline_node", "formatted_text_inline_node", "mediaSingle_caption_node"]
S1 = os.path.join("scripts", "s01-adf-json-schema-analysis")
S2 = os.path.join("scripts", "s02-nodes-code-gen")


def _attr(g):
    k = g.int(0, 8)
    if k < 6:
        return {"type": list(TYPES)[k]}
    if k == 6:
        return {"enum": [g.pick(["file", "external", "wide", "x y"])] * 1 + (["other"] if g.flip() else [])}
    return dict(g.pick(ODD))


def _case(g):
    defs, seen = [], set()
    for i in range(g.int(0, 3) if g.flip(5) else g.int(3, 10)):
        words = [g.pick(WORDS) for _ in range(g.int(1, 3))]
        if "_".join(words) in seen:
            continue
        seen.add("_".join(words))
        d = {"words": words, "camel": g.flip(), "kind": "mark" if g.flip(4) else "node", "variants": [], "alone": True}
        if d["kind"] == "node" and g.flip(4):
            d["variants"] = [g.pick(["with_alignment", "with_no_marks", "full", "root_only", "with_marks_with_size"]) for _ in range(g.int(1, 2))]
            d["variants"] = sorted(set(d["variants"]))
            d["alone"] = not g.flip(4)
        d["type"] = None if g.flip(8) else "same" if g.flip() else "zz%d" % i
        d["more types"] = ["zw%d" % i] if g.flip(10) else []
        if g.flip():
            d["attrs"] = None if g.flip(8) else \
                [[n, _attr(g), g.flip(3)] for n in sorted({g.pick(ATTRS) for _ in range(g.int(0, 5))})]
            if d["attrs"]:
                for _ in range(g.int(0, 3)):
                    d["attrs"].append(d["attrs"].pop(0))
        for f in ("content", "marks"):
            if d["kind"] == "node" and g.flip():
                d[f] = [[g.int(0, 40), g.int(0, 3)] for _ in range(g.int(0, 3))]
        d["text"], d["version"] = g.flip(5), g.flip(8)
        d["allOf"] = g.flip(4) and g.int(1, 3)
        defs.append(d)
    return {"defs": defs, "other": ["block_content", "thing"][:g.int(0, 2)], "special": [s for s in SPECIAL if g.flip(6)],
            "turn": g.int(0, 20), "mixins": [g.int(0, 20) for _ in range(g.int(0, 4))],
            "unknown": g.flip(4), "values": [g.int(0, 3) for _ in range(6)]}


def cases():
    return built(_case)


def base_name(d):
    w = d["words"]
    return w[0] + "".join(x.capitalize() for x in w[1:]) if d["camel"] else "_".join(w)


def describe(case):
    """{definition: schema}, and what is to be found out about it."""
    names = []
    for d in case["defs"]:
        names += (["%s_%s" % (base_name(d), d["kind"])] if d["alone"] else []) + [
            "%s_%s_node" % (base_name(d), v) for v in d["variants"]]
    names += case["special"]
    targets = names + ["%s" % o for o in case["other"]] + (["nowhere_node"] if case["unknown"] else [])
    schema, info, enums, deps = {}, {}, set(), {}

    def base_of(name):
        if name.endswith("_mark"):
            return name[:-5]
        return name[:-5].split("_with_")[0] if name.endswith("_node") else None

    for d in case["defs"]:
        base, refs, mine = base_name(d), [], set()
        props = {}
        if d["type"]:
            values = [base if d["type"] == "same" else d["type"]] + d["more types"]
            props["type"] = {"enum": values}
            mine.update(values)
        if "attrs" in d:
            if d["attrs"] is None:
                props["attrs"] = {"type": "object"}
            else:
                props["attrs"] = {"type": "object", "properties": {n: dict(s) for n, s, _ in d["attrs"]},
                                  "additionalProperties": False}
                if any(r for _, _, r in d["attrs"]):
                    props["attrs"]["required"] = [n for n, _, r in d["attrs"] if r]
                for n, s, _ in d["attrs"]:
                    if n == "type" and "enum" in s:
                        mine.update(s["enum"])
        for f in ("content", "marks"):
            if f in d:
                which = []
                for k, form in d[f]:
                    if targets:
                        t = targets[k % len(targets)]
                        refs.append(t)
                        r = {"$ref": "#/definitions/" + t}
                        which.append([r, {"anyOf": [r]}, {"allOf": [{"type": "object"}, r]}, {"items": [r]}][form])
                props[f] = {"type": "array", "items": which[0] if len(which) == 1 else {"anyOf": which}}
        if d["text"]:
            props["text"] = {"type": "string", "minLength": 1}
        if d["version"]:
            props["version"] = {"type": "integer"}
        if d["allOf"] and len(props) > 1:
            keys = list(props)
            head, tail = {k: props[k] for k in keys[:1]}, {k: props[k] for k in keys[1:]}
            if d["allOf"] == 1:
                body = {"allOf": [{"type": "object", "properties": tail, "required": keys[1:2]}], "properties": head}
            elif d["allOf"] == 2:
                body = {"allOf": [{"type": "object", "properties": head}, {"properties": tail, "required": keys[1:2]}]}
            else:
                body = {"allOf": [{"type": "object", "properties": tail}, {"additionalProperties": True}, {"properties": head}]}
        else:
            body = {"type": "object", "properties": props, "required": ["type"], "additionalProperties": False}
        if d["alone"]:
            name = "%s_%s" % (base, d["kind"])
            schema[name] = body
            info[name] = d
            enums |= mine
            if d["kind"] == "node":
                deps.setdefault(base, set()).update(refs)
        for v in d["variants"]:
            name = "%s_%s_node" % (base, v)
            back = "%s_node" % base
            schema[name] = {"allOf": [{"$ref": "#/definitions/" + back}, {"type": "object", "properties": {"marks": {
                "type": "array", "items": [{"$ref": "#/definitions/" + t} for t in refs[:1]]}}}]}
            deps.setdefault(base_of(name), set()).update([back] + refs[:1])
    for s in case["special"]:
        schema[s] = {"type": "object", "properties": {"type": {"enum": ["zs"]}}}
        enums.add("zs")
        deps.setdefault(base_of(s), set())
    for o in case["other"]:
        schema[o] = {"anyOf": [{"$ref": "#/definitions/" + n} for n in names[:2]]}
    deps = {b: {base_of(t) for t in ts if base_of(t)} - {b} for b, ts in deps.items()}
    return schema, info, enums, deps


# ---- running the scripts in a scratch copy ----

SCRATCH = []
SCHEMA = types.SimpleNamespace(data={})


def _load(name, path):
    s = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(s)
    sys.modules[name] = module
    s.loader.exec_module(module)
    return module


def scratch():
    """(folder, analysis module, generator module) of this process."""
    if not SCRATCH or SCRATCH[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="verif-c33-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        from multiprocessing import util
        util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=1)
        for s in (S1, S2):
            src = os.path.join(REPO, s)
            if not os.path.isdir(src):
                raise HarnessError("no folder " + src)
            shutil.copytree(src, os.path.join(d, s), ignore=shutil.ignore_patterns("__pycache__"))
        stub = types.ModuleType("atlas_doc_parser.tests.data.schema")
        stub.adf_json_schema = SCHEMA
        old = {n: sys.modules.get(n) for n in ("atlas_doc_parser.tests", "atlas_doc_parser.tests.data",
                                               "atlas_doc_parser.tests.data.schema")}
        flag = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        try:
            for n in old:
                sys.modules[n] = types.ModuleType(n)
                sys.modules[n].__path__ = []
            sys.modules["atlas_doc_parser.tests.data.schema"] = stub
            try:
                a = _load("verif_c33_analysis", os.path.join(d, S1, "s2_analyze_adf_json_schema.py"))
                b = _load("verif_c33_generator", os.path.join(d, S2, "s1_gen_code.py"))
            except Exception as e:
                raise Violation("the schema scripts cannot be loaded: %s: %s" % (type(e).__name__, e))
        finally:
            sys.dont_write_bytecode = flag
            for n, m in old.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        SCRATCH[:] = [os.getpid(), d, a, b]
    return SCRATCH[1:]


def run(what, fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def turned(d, n):
    keys = list(d)
    for i in range(n):
        keys.insert(i % len(keys), keys.pop()) if keys else None
    return {k: d[k] for k in keys}


def sections(text):
    out, name = {}, None
    for line in text.split("\n"):
        if line.startswith("#"):
            name = line.lstrip("#").strip()
            require(name not in out, "two sections %r in the report", name)
            out[name] = []
        elif name and line and re.match(r"-|\d+\.", line):
            out[name].append(line)
    return out


def capital(s):
    return s[0].upper() + s[1:]


def analysis(text, schema, enums, deps):
    nodes = [n for n in schema if n.endswith("_node")]
    marks = sorted(n[:-5] for n in schema if n.endswith("_mark"))
    s = sections(text)
    same(s.get("Overview"), ["- Total definitions: %d" % len(schema), "- Node definitions (`*_node`): %d" % len(nodes),
                             "- Mark definitions (`*_mark`): %d" % len(marks),
                             "- Other definitions: %d" % (len(schema) - len(nodes) - len(marks)),
                             "- Unique type enum values: %d" % len(enums)], "the overview of the report")
    same(s.get("All Type Enum Values"), ["- " + e for e in sorted(enums)], "the type values of the report")
    same(s.get("Mark Definitions"), ["- " + m for m in marks], "the marks of the report")
    order = []
    for i, line in enumerate(s.get("Implementation Order") or []):
        m = re.fullmatch(r"(\d+)\. \*\*(\w+)\*\* - (no dependencies|depends on: (.*))", line)
        require(m, "the line %r of the order", line)
        same(int(m.group(1)), i + 1, "the number of the line %r" % line)
        base = m.group(2)
        require(base in deps, "the report orders %r, which is no node type of the schema", base)
        same(m.group(4), ", ".join(sorted(deps[base])) or None, "the dependencies of %r" % base)
        order.append(base)
    same(sorted(order), sorted(deps), "the node types in the order")
    # all dependencies of a type come first, unless there is a cycle among them
    closure = {}
    for b in deps:
        todo, got = list(deps[b]), set()
        while todo:
            x = todo.pop()
            if x in deps and x not in got:
                got.add(x)
                todo.extend(deps[x])
        closure[b] = got
    cyclic = {b for b in deps if b in closure[b] or any(x in closure[x] for x in closure[b])}
    for b in deps:
        if b not in cyclic:
            for x in closure[b]:
                require(order.index(x) < order.index(b), "%r comes before %r, which it depends on", b, x)
    # the first in the alphabet of those that are ready, and at the end those in or behind a cycle
    left, ready = sorted(deps), []
    while left:
        now = [b for b in left if not any(x in left for x in deps[b])]
        ready.append(now[0] if now else None)
        if not now:
            ready[-1:] = left
            break
        left.remove(now[0])
    same(order, ready, "the order of the node types")
    plain = [b for b in order if not deps[b]]
    same(s.get("Phase 2: Marks"), ["- Mark" + capital(m) for m in marks], "the marks of phase 2")
    same(s.get("Phase 3: Leaf Nodes"), ["- Node" + capital(b) for b in plain], "the leaves of phase 3")
    same(s.get("Phase 4: Composite Nodes"), ["- Node%s - needs: %s" % (capital(b), ", ".join(sorted(deps[b])))
                                             for b in order if deps[b]], "the composite nodes of phase 4")
    return closure, cyclic


BASE = "from atlas_doc_parser.mark_or_node import Base, BaseMark, BaseNode\n"
COUNT = [0]


def names_of(d):
    stem = "_".join(d["words"])
    cls = d["kind"].capitalize() + "".join(w.capitalize() for w in d["words"])
    t = base_name(d) if d["type"] in (None, "same") else d["type"]
    return "%s_%s" % (d["kind"], stem), cls, t


def value(s, k):
    return {"string": "x%d" % k, "integer": k, "number": k + 0.5, "boolean": bool(k % 2), "array": [k], "object": {"k": k}}.get(
        str(s.get("type")) if "enum" not in s and "$ref" not in s else None, "v%d" % k)


def read_all(d):
    out = {}
    for sub in ("nodes", "mixins"):
        for n in sorted(os.listdir(os.path.join(d, "atlas_doc_parser", sub))):
            p = os.path.join(d, "atlas_doc_parser", sub, n)
            if os.path.isfile(p):
                with open(p, encoding="utf-8") as f:
                    out[sub + "/" + n] = f.read()
    return out


def fields_of(cls, want, about):
    """want: {name: (type or None, default or REQ)}"""
    got = {f.name: f for f in dataclasses.fields(cls)}
    same(sorted(got), sorted(want), "the fields of " + about)
    for n, (typ, default) in want.items():
        if typ is not None:
            same(got[n].type, typ, "the type of %s.%s" % (about, n))
        if default == "required":
            require(got[n].default is dataclasses.MISSING, "%s.%s is required but has a default", about, n)
        elif default == "optional":
            require(got[n].default is OPT, "%s.%s is optional but has the default %r", about, n, got[n].default)
        else:
            same(got[n].default, default, "the default of %s.%s" % (about, n))


def generated(case, root, gen, schema, info, note):
    package = os.path.join(root, "atlas_doc_parser")
    shutil.rmtree(package, ignore_errors=True)
    for sub in ("nodes", "mixins"):
        os.makedirs(os.path.join(package, sub))
    made = {n: d for n, d in info.items()}
    mixins = {}
    order = sorted(made)
    for k in case["mixins"]:
        if order:
            d = made[order[k % len(order)]]
            module, cls, _ = names_of(d)
            mixins["mixins/%s.py" % module] = "class %sMixin:\n    kept = %d\n\n    def to_markdown(self, *args):\n        return 'mine'\n" % (cls, k)
    if mixins:
        note("existing mixin")
    for p, text in mixins.items():
        with open(os.path.join(package, p), "w") as f:
            f.write(text)
    run("the code generator", gen.main)
    files = read_all(root)
    for p, text in mixins.items():
        same(files[p], text, "the existing file " + p)
    want = {"nodes/parse.py"}
    for d in made.values():
        module = names_of(d)[0]
        want |= {"nodes/%s.py" % module, "mixins/%s.py" % module}
    same(sorted(files), sorted(want), "the generated files")
    SCHEMA.data = {"definitions": turned(schema, 3 + case["turn"])}
    run("the code generator, again", gen.main)
    again = read_all(root)
    for p in files:
        same(again.get(p), files[p], "%s when generated again with the definitions in another order" % p)
    # use it
    COUNT[0] += 1
    name = "verif_c33_package_%d" % COUNT[0]
    with open(os.path.join(package, "__init__.py"), "w"):
        pass
    for sub in ("nodes", "mixins"):
        with open(os.path.join(package, sub, "__init__.py"), "w"):
            pass
    with open(os.path.join(package, "nodes", "base.py"), "w") as f:
        f.write(BASE)
    with open(os.path.join(package, "type_hint.py"), "w") as f:
        f.write("T_DATA = dict\n")
    with open(os.path.join(package, "type_enum.py"), "w") as f:
        f.write("import enum\n\n\nclass TypeEnum(str, enum.Enum):\n    zzzz = 'zzzz'\n" + "".join(
            "    %s = %r\n" % (t, t) for t in sorted({names_of(d)[2] for d in made.values()})))
    flag = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    importlib.invalidate_caches()
    try:
        s = importlib.util.spec_from_file_location(name, os.path.join(package, "__init__.py"), submodule_search_locations=[package])
        sys.modules[name] = importlib.util.module_from_spec(s)
        try:
            parse = importlib.import_module(name + ".nodes.parse")
        except Exception as e:
            raise Violation("the generated package cannot be imported: %s: %s" % (type(e).__name__, e))
        for def_name, d in made.items():
            used(case, name, parse, d, mixins)
        mine = sorted(p for p in files if p.startswith("mixins/"))
        if mine:
            # whatever an existing file holds
            p, text = mine[case["turn"] % len(mine)], ["", "\n", "# mine\n", "x = (", "\xe9\n"][case["values"][0] + case["turn"] % 2]
            os.remove(os.path.join(package, mine[case["values"][1] % len(mine)]))
            with open(os.path.join(package, p), "w", encoding="utf-8") as f:
                f.write(text)
            run("the code generator, with other mixin files", gen.main)
            third = read_all(root)
            same(third[p], text, "the existing file " + p)
            for q in mine:
                if q not in mixins and q != p:
                    same(third.get(q), files[q], "the stub " + q)
    finally:
        sys.dont_write_bytecode = flag
        for n in [n for n in sys.modules if n == name or n.startswith(name + ".")]:
            del sys.modules[n]


def used(case, package, parse, d, mixins):
    module, cls_name, t = names_of(d)
    mod = sys.modules.get("%s.nodes.%s" % (package, module))
    require(mod is not None, "the generated parser does not import %s", module)
    cls = getattr(mod, cls_name, None)
    require(isinstance(cls, type), "%s has no class %s", module, cls_name)
    base = sys.modules[package + ".nodes.base"]
    require(issubclass(cls, base.BaseMark if d["kind"] == "mark" else base.BaseNode), "%s is not derived from its base", cls_name)
    want = {"type": (str, t)}
    data = {"type": t}
    if "attrs" in d:
        attrs = getattr(mod, cls_name + "Attrs", None)
        require(isinstance(attrs, type) and issubclass(attrs, base.Base), "%s has no attributes class", cls_name)
        want["attrs"] = (attrs, "optional")
        fields_of(attrs, {n: (str if "enum" in s else T.Any if "$ref" in s else TYPES.get(str(s.get("type")), T.Any),
                              "required" if r else "optional") for n, s, r in d["attrs"] or []}, cls_name + "Attrs")
        v = case["values"]
        data["attrs"] = {n: value(s, v[i % len(v)]) for i, (n, s, r) in enumerate(d["attrs"] or []) if r or v[i % len(v)] > 1}
    else:
        require(not hasattr(mod, cls_name + "Attrs"), "%s has an attributes class, but its definition no attributes", cls_name)
    if d["kind"] == "node":
        if "content" in d:
            want["content"] = (T.List[base.BaseNode], "optional")
        if "marks" in d:
            want["marks"] = (T.List[base.BaseMark], "optional")
        if d["text"]:
            want["text"] = (str, "optional")
            data["text"] = "hello"
        if d["version"]:
            want["version"] = (int, 1)
            data["version"] = 2
    fields_of(cls, want, cls_name)
    fn = parse.parse_mark if d["kind"] == "mark" else parse.parse_node
    try:
        obj = fn(dict(data))
    except Exception as e:
        raise Violation("parsing %r with the generated parser raised %s: %s" % (data, type(e).__name__, e))
    require(type(obj) is cls, "%r is parsed to %s", data, type(obj).__name__)
    same(obj.to_dict(), data, "serialising what the generated parser made")
    args = ("some text",) if d["kind"] == "mark" else ()
    mine = "mixins/%s.py" % module in mixins
    same(obj.to_markdown(*args), "mine" if mine else "some text" if args else "", "the Markdown of " + cls_name)


def check(case, note):
    schema, info, enums, deps = describe(case)
    defs = case["defs"]
    for label, on in (("variant", any(d["variants"] for d in defs)), ("other definition", case["other"]),
                      ("no type", any(d["type"] is None for d in defs)), ("special definition", case["special"]),
                      ("several types", any(d["type"] and d["more types"] for d in defs)),
                      ("attrs without properties", any(d.get("attrs", 0) is None for d in defs)),
                      ("merged parts", any("allOf" in s and "properties" in s for s in schema.values())),
                      ("required and optional attrs", any({r for _, _, r in d.get("attrs") or []} == {True, False} for d in defs)),
                      ("unknown reference", any(x == "nowhere" for s in deps.values() for x in s)),
                      ("mark dependency", any(x + "_mark" in schema for s in deps.values() for x in s)),
                      ("no nodes", defs and not deps), ("no marks", defs and not any(d["kind"] == "mark" for d in defs))):
        if on:
            note(label)
    root, ana, gen = scratch()
    texts = []
    for turn in (0, case["turn"]):
        SCHEMA.data = {"$ref": "#/definitions/doc_node", "definitions": turned(schema, turn)}
        run("the schema analysis", ana.main)
        with open(os.path.join(root, S1, "ADF-JSON-Schema-Analysis.md"), encoding="utf-8") as f:
            texts.append(f.read())
    closure, cyclic = analysis(texts[0], schema, enums, deps)
    same(texts[1], texts[0], "the report with the definitions in another order")
    if cyclic:
        note("cycle")
    if any(len(closure[b]) >= 2 and b not in cyclic for b in deps):
        note("chain of three")
    note.nontrivial(sum(n.endswith("_node") for n in schema) >= 3 and any(x in deps for s in deps.values() for x in s))
    SCHEMA.data = {"definitions": turned(schema, case["turn"])}
    generated(case, root, gen, schema, info, note)
