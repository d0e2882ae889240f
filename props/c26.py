"""Model: the generated sources themselves say which public names they define."""
import ast
import atexit
import compileall
import importlib
import importlib.util
import json
import os
import py_compile
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from lib.sut import REPO, Violation, api, require

RULE = ("One to four generated mark and node modules (model classes on any base class, attributes classes, subclasses "
        "of classes of other modules, private and undecorated classes, type aliases, plain classes, enums, functions, "
        "instances, imports under other names), written in any order into a scratch copy of the package that lives "
        "below folders of any name, with decoys beside them. gen_code.main() runs there in its own process; the "
        "imports of the api.py it writes are compared with the names the sources define. Non-trivial: at least two "
        "modules with something public and something not public.")
ASSUMPTIONS = ["model classes have distinct names, which do not start with T_NODE_ or T_MARK_",
               "a class is defined by a module when its class statement is executed there"]
EXAMPLES = {"quick": 24, "thorough": 320}
REQUIRED_CLASSES = ["alias", "alias of a class", "private", "imported class", "plain class", "attrs", "subclass",
                    "decoy file", "enum", "function", "instance", "undecorated"]

KINDS = ["model", "model", "model", "attrs", "attrs", "subclass", "imported class", "imported module", "private",
         "plain class", "enum", "exception", "function", "instance", "alias", "alias", "alias of a class", "other alias",
         "undecorated", "constant", "base", "nested"]
FOLDERS = ["work", "marks", "nodes", "mark_x", "src", "node_y.py", "atlas_doc_parser", "a b"]
STEMS = ["zz", "alpha", "x_1", "text2", "list", "b", "mark_a", "node_q"]
WORDS = ["Zig", "Alpha", "Box", "Attr", "Mark", "Node", "Tee", "lower", "UPPER", "T", "NodeAttrs", "X1"]


@st.composite
def cases(draw):
    mods = []
    used = set()
    for _ in range(draw(st.integers(1, 4))):
        what = draw(st.sampled_from(["mark", "node"]))
        stem = draw(st.sampled_from(STEMS))
        if (what, stem) in used:
            continue
        used.add((what, stem))
        items = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.sampled_from(WORDS), st.integers(0, 7)).map(list),
                              min_size=0, max_size=7))
        mods.append([what, stem, items])
    decoys = draw(st.lists(st.sampled_from(["marks/helper.py", "nodes/helper.py", "nodes/mark_other.py",
                                            "marks/node_other.py", "nodes/node_note.txt", "marks/sub/mark_deep.py",
                                            "node_top.py", "nodes/_node_hidden.py"]), max_size=3, unique=True))
    return {"folders": draw(st.lists(st.sampled_from(FOLDERS), min_size=1, max_size=3)), "modules": mods,
            "decoys": decoys, "order": draw(st.integers(0, 23))}


HEAD = '''import dataclasses
import enum
import typing as T
from func_args.api import REQ, OPT
from ..mark_or_node import Base, BaseMark, BaseMarkOrNode, BaseNode
from ..type_enum import TypeEnum
'''


def sources(case):
    """{path in the package: source}, {path in the package: expected public names}, labels."""
    files, public, labels = {}, {}, set()
    earlier = [("marks.mark_link", "MarkLink"), ("nodes.node_text", "NodeText"), ("nodes.node_status", "NodeStatusAttrs")]
    n = 0
    for what, stem, items in case["modules"]:
        where = "%ss/%s_%s.py" % (what, what, stem)
        imports, body, names, mine = [], [], [], []
        base = "BaseMark" if what == "mark" else "BaseNode"

        def cls(name, bases, decorated=True):
            if decorated:
                body.append("@dataclasses.dataclass(frozen=True)")
            body.append("class %s(%s):\n    size: int = OPT\n" % (name, bases))

        for kind, word, k in items:
            n += 1
            name = "%s%s%d" % (word, "x" if word == "T" else "", n)
            labels.add(kind)
            if kind in ("model", "base"):
                cls(name, [base, base, "Base", "BaseMarkOrNode"][k % 4])
                names.append(name)
                mine.append(name)
            elif kind == "attrs":
                name += "Attrs"
                cls(name, "Base")
                names.append(name)
                mine.append(name)
            elif kind == "undecorated":
                cls(name, base, False)
                names.append(name)
            elif kind == "subclass":
                module, parent = earlier[k % len(earlier)]
                if k % 2 and mine:
                    parent = mine[k % len(mine)]
                else:
                    imports.append("from ..%s import %s as _P%d" % (module, parent, n))
                    parent = "_P%d" % n
                cls(name, parent)
                names.append(name)
            elif kind == "imported class":
                module, other = earlier[k % len(earlier)]
                imports.append("from ..%s import %s" % (module, other))
            elif kind == "imported module":
                module, other = earlier[k % len(earlier)]
                imports.append("from .. import %s as %s" % (module.split(".")[0], name))
            elif kind == "private":
                cls("_" * (1 + k % 2) + name, base)
            elif kind == "plain class":
                body.append("class %s%s:\n    size = %d\n" % (name, ["", "(dict)", "(T.NamedTuple)"][k % 3], n)
                            if k % 3 != 2 else "class %s(T.NamedTuple):\n    size: int = %d\n" % (name, n))
            elif kind == "enum":
                body.append("class %s(str, enum.Enum):\n    a = 'a'\n" % name)
            elif kind == "exception":
                body.append("class %s(ValueError):\n    pass\n" % name)
            elif kind == "function":
                body.append("def %s():\n    class Inner%d(Base):\n        pass\n    return Inner%d\n" % (name, n, n))
            elif kind == "nested":
                body.append("class %s:\n    class In%d(Base):\n        pass\n" % (name, n))
            elif kind == "instance":
                if mine:
                    body.append("%s = %s.__new__(%s)\n" % (name, mine[-1], mine[-1]))
            elif kind == "constant":
                body.append("%s = %d\n" % (name, n))
            elif kind == "alias":
                name = ("T_NODE_", "T_MARK_")[k % 2] + word.upper() + str(n)
                body.append("%s = %s\n" % (name, ["T.Union[str, int]", "T.Literal['a', 'b']", "list['%s']" % base,
                                                  "str"][k % 4]))
                names.append(name)
            elif kind == "alias of a class":
                if mine:
                    name = ("T_NODE_", "T_MARK_")[k % 2] + word.upper() + str(n)
                    body.append("%s = %s\n" % (name, mine[-1]))
                    names.append(name)
                else:
                    labels.discard(kind)
            elif kind == "other alias":
                body.append("%s = T.Union[str, int]\n" % ["T_OTHER%d", "_T_NODE_%d", "t_node_%d", "T_NODES%d"][k % 4] % n)
        files[where] = HEAD + "\n".join(sorted(set(imports))) + "\n\n" + "\n".join(body)
        public[where] = names
        earlier += [(where[:-3].replace("/", "."), m) for m in mine]
    for d in case["decoys"]:
        labels.add("decoy file")
        if d.endswith(".txt"):
            files[d] = "not python\n"
        else:
            files[d] = "from atlas_doc_parser.mark_or_node import Base\n\n\nclass Decoy(Base):\n    pass\n"
    return files, public, labels


def defined_names(path):
    """The public names a module of the repository defines, from its source."""
    with open(path, encoding="utf-8") as f:
        body = ast.parse(f.read()).body
    module = importlib.import_module("atlas_doc_parser.%s.%s" % (os.path.basename(os.path.dirname(path)),
                                                                 os.path.basename(path)[:-3]))
    names = [x.name for x in body if isinstance(x, ast.ClassDef) and not x.name.startswith("_")
             and issubclass(getattr(module, x.name), api.Base)]
    for x in body:
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                if isinstance(t, ast.Name) and t.id.startswith(("T_NODE_", "T_MARK_")):
                    names.append(t.id)
    return names


def repo_public():
    public = {}
    for what in ("mark", "node"):
        d = os.path.join(REPO, "atlas_doc_parser", what + "s")
        for name in sorted(os.listdir(d)):
            if name.startswith(what + "_") and name.endswith(".py"):
                public["%ss/%s" % (what, name)] = defined_names(os.path.join(d, name))
    return public


RUN = r'''
import io, json, sys, contextlib
root = sys.argv[1]
sys.path.insert(0, root)
with contextlib.redirect_stdout(io.StringIO()):
    from atlas_doc_parser import gen_code
    gen_code.main()
    text = gen_code.generate_api_py()
assert gen_code.__file__.startswith(root), gen_code.__file__
for name in [n for n in sys.modules if n == "atlas_doc_parser.api"]:
    del sys.modules[name]
out = {"text": text, "names": None, "error": None}
try:
    import atlas_doc_parser.api as api
    out["names"] = {n: getattr(getattr(api, n), "__module__", None) for n in dir(api) if not n.startswith("__")}
except Exception as e:
    out["error"] = "%s: %s" % (type(e).__name__, e)
sys.stdout.write(json.dumps(out))
'''


def generate(root, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", RUN, root], capture_output=True, text=True, cwd=root, env=env, timeout=120)
    if p.returncode:
        raise Violation("the generator failed:\n" + p.stderr[-1500:])
    return json.loads(p.stdout)


SCRATCH = []


def scratch():
    if not SCRATCH or SCRATCH[0][0] != os.getpid():
        d = tempfile.mkdtemp(prefix="verif-c26-")
        SCRATCH[:] = [(os.getpid(), d)]
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        from multiprocessing import util
        util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=1)
    return SCRATCH[0][1]


def copy_of_package(where, compiled=None):
    if compiled and not os.path.exists(compiled):
        copy_of_package(compiled)
        compileall.compile_dir(compiled, quiet=2, invalidation_mode=py_compile.PycInvalidationMode.UNCHECKED_HASH)
        pyc = importlib.util.cache_from_source(os.path.join(compiled, "api.py"))
        if os.path.exists(pyc):
            os.remove(pyc)
    shutil.copytree(compiled or os.path.join(REPO, "atlas_doc_parser"), where,
                    ignore=shutil.ignore_patterns("tests", "docs", *([] if compiled else ["__pycache__", "*.pyc"])))


def imports_of(text):
    """[(module below the package, name)] for the imports from marks/ and nodes/ modules, and the other names."""
    mine, other = [], []
    for x in ast.parse(text).body:
        if isinstance(x, ast.ImportFrom):
            module = "." * x.level + (x.module or "")
            for a in x.names:
                parts = module.lstrip(".").split(".")
                if len(parts) == 2 and parts[0] in ("marks", "nodes") and parts[1].startswith(("mark_", "node_")):
                    mine.append(("%s/%s.py" % tuple(parts), a.name, a.asname))
                else:
                    other.append(a.asname or a.name)
    return mine, other


CORE = ["ParamError", "UnimplementedTypeError", "T_DATA", "TypeEnum", "Base", "BaseMarkOrNode", "BaseMark", "BaseNode",
        "T_MARK", "T_NODE", "parse_mark", "parse_node"]


def compare(text, public):
    mine, other = imports_of(text)
    want = sorted((where, name, None) for where, names in public.items() for name in names)
    missing = [w for w in want if w not in mine]
    extra = [m for m in mine if m not in want]
    require(not missing, "the generated API lacks %r", missing)
    require(not extra, "the generated API imports %r, which is no public model class of that module", extra)
    twice = sorted({m for m in mine if mine.count(m) > 1})
    require(not twice, "the generated API imports %r more than once", twice)
    lost = [c for c in CORE if c not in other]
    require(not lost, "the generated API lacks %r", lost)


def once(note):
    with open(os.path.join(REPO, "atlas_doc_parser", "api.py"), encoding="utf-8") as f:
        committed = f.read()
    compare(committed, repo_public())
    d = tempfile.mkdtemp(prefix="verif-c26-")
    try:
        copy_of_package(os.path.join(d, "atlas_doc_parser"))
        got = generate(d, "5")["text"]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    require(got == committed, "api.py is not what the generator produces from the committed modules")


def check(case, note):
    if case.get("once"):
        return once(note)
    files, public, labels = sources(case)
    note(*labels)
    note.nontrivial(sum(1 for names in public.values() if names) >= 2
                    and bool(labels & {"private", "imported class", "plain class", "enum", "function", "decoy file"}))
    top = scratch()
    expected = dict(repo_public(), **public)
    results = []
    for turn in (0, 1):
        root = os.path.join(top, *(case["folders"] if turn == 0 else ["again"]))
        os.makedirs(root)
        try:
            package = os.path.join(root, "atlas_doc_parser")
            copy_of_package(package, os.path.join(top, "compiled"))
            order = sorted(files)
            for i in range(case["order"] if turn == 0 else 0):
                order.insert(i % len(order), order.pop()) if order else None
            for f in order:
                path = os.path.join(package, *f.split("/"))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as out:
                    out.write(files[f])
            got = generate(root, str(turn))
            with open(os.path.join(package, "api.py"), encoding="utf-8") as f:
                written = f.read()
        finally:
            shutil.rmtree(os.path.join(top, case["folders"][0] if turn == 0 else "again"), ignore_errors=True)
        require(got["text"] == written, "main() wrote something else than the generator returns")
        results.append(got["text"])
        compare(got["text"], expected)
        require(got["error"] is None, "the generated API cannot be imported: %s", got["error"])
        for where, names in expected.items():
            for name in names:
                require(name in got["names"], "the generated API module has no %s", name)
    require(results[0] == results[1], "the generated API depends on the order or place of the files")
