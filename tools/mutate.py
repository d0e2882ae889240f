#!/usr/bin/env python3
"""Development tool: how sensitive are the checks to small changes of the package?

    tools/mutate.py OUT.jsonl [--own CHECK,...] [--file SUBSTRING] [--every N] [--jobs N] [--grep TEXT] [--again OLD.jsonl]

--again: only the mutants that survived in OLD.jsonl and those that are not in it.

Every mutant is one changed syntax node of one file in a scratch copy of /repo. The checks run in order until one
reports a violation; what no check reports is either an equivalent change or a gap.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = ["C25", "C05", "C24", "C01", "C20", "C29", "C09", "C08", "C04", "C07", "C02", "C19", "C13", "C21", "C18", "C15", "C16",
         "C17", "C14", "C06", "C03", "C27", "C10", "C11", "C12", "C22", "C23", "C28", "C30", "C26"]
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}


def sites(tree):
    """(label, function that changes a copy of the tree), for a tree walked in a fixed order."""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    typing_only = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                typing_only.add(id(x))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for x in ast.walk(a.annotation):
                        typing_only.add(id(x))
            if n.returns:
                for x in ast.walk(n.returns):
                    typing_only.add(id(x))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            for x in ast.walk(n):
                typing_only.add(id(x))
    for i, n in enumerate(nodes):
        if id(n) in doc or id(n) in typing_only:
            continue
        line = getattr(n, "lineno", 0)

        def add(label, fn):
            out.append(("%d: %s" % (line, label), i, fn))

        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                add("drop keyword %s of %s" % (n.keywords[k].arg, ast.unparse(n.func)),
                    lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip", "upper", "replace",
                                                                    "deepcopy", "removeprefix", "lower"):
                if n.func.attr == "deepcopy":
                    add("no deepcopy", lambda m: "arg")
                else:
                    add("no .%s()" % n.func.attr, lambda m: "value")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add("%r -> %r" % (n.value, not n.value), lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add("%r -> %r" % (n.value, n.value + 1), lambda m: setattr(m, "value", m.value + 1))
                add("%r -> %r" % (n.value, n.value - 1), lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, str):
                add("%r + x" % n.value, lambda m: setattr(m, "value", m.value + "x"))
                if len(n.value) > 0:
                    add("%r shortened" % n.value, lambda m: setattr(m, "value", m.value[:-1]))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            add("swap %s" % ast.unparse(n), lambda m: m.ops.__setitem__(0, SWAP[type(m.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            add("and/or %s" % ast.unparse(n), lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                add("drop operand %d of %s" % (k, ast.unparse(n)), lambda m, k=k: m.values.pop(k))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("condition false: %s" % ast.unparse(n.test), lambda m: setattr(m, "test", ast.Constant(False)))
            if not isinstance(n, ast.While):
                add("condition true: %s" % ast.unparse(n.test), lambda m: setattr(m, "test", ast.Constant(True)))
        if isinstance(n, ast.Name) and n.id in ("REQ", "OPT") and isinstance(n.ctx, ast.Load):
            add("REQ/OPT", lambda m: setattr(m, "id", "OPT" if m.id == "REQ" else "REQ"))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            add("left of %s" % ast.unparse(n), lambda m: "left")
            add("right of %s" % ast.unparse(n), lambda m: "right")
        if isinstance(n, ast.Break) or isinstance(n, ast.Continue):
            add("pass instead of %s" % type(n).__name__, lambda m: ast.Pass())
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not (isinstance(n, ast.Assign) and n.col_offset == 0):
                add("delete %s" % ast.unparse(n)[:60], lambda m: ast.Pass())
        if isinstance(n, (ast.For,)):
            add("only the first of %s" % ast.unparse(n.iter)[:40], lambda m: setattr(m, "iter", ast.Subscript(
                ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, ast.Constant(1), None), ast.Load())))
            add("all but the last of %s" % ast.unparse(n.iter)[:40], lambda m: setattr(m, "iter", ast.Subscript(
                ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, ast.Constant(-1), None), ast.Load())))
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            typing = ast.unparse(n.annotation)
            if typing.endswith("Attrs"):
                add("attrs annotation dict", lambda m: setattr(m, "annotation", ast.Name("dict", ast.Load())))
            if isinstance(n.value, ast.Name) and n.value.id == "OPT":
                add("delete field %s" % n.target.id, lambda m: ast.Pass())
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def generic_visit(self, node):
        if node is self.target:
            return self.new
        return super().generic_visit(node)

    def visit(self, node):
        if node is self.target:
            return self.new
        return super().visit(node)


def mutant(source, index, fn):
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    n = nodes[index]
    r = fn(n)
    new = None
    if r == "value":
        new = n.func.value
    elif r == "arg":
        new = n.args[0]
    elif r in ("left", "right"):
        new = getattr(n, r)
    elif isinstance(r, ast.AST) and isinstance(r, ast.Pass):
        new = r
    if new is not None:
        tree = Replace(n, new).visit(tree)
    if isinstance(n, ast.BoolOp) and len(n.values) == 1:
        tree = Replace(n, n.values[0]).visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree))


def judge(job):
    file, label, text, order = job
    d = tempfile.mkdtemp(prefix="mutant-")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        shutil.copytree("/repo/atlas_doc_parser", os.path.join(r, "atlas_doc_parser"),
                        ignore=shutil.ignore_patterns("__pycache__", "tests", "docs", "vendor") if False else
                        shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(r, "atlas_doc_parser", file), "w") as f:
            f.write(text)
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for x in ("lib", "props", "check"):
            (shutil.copytree if os.path.isdir(os.path.join(ROOT, x)) else shutil.copy)(os.path.join(ROOT, x), os.path.join(v, x))
        env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_NO_SHRINK="1", VERIF_WORKERS="2")
        out = {"file": file, "mutation": label, "caught": [], "missed": [], "errors": []}
        for c in order:
            try:
                p = subprocess.run(["./check", c], cwd=v, env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                out["errors"].append(c + " timeout")
                break
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                out["caught"].append(c)
                out["message"] = p.stdout.splitlines()[0][:150]
                break
            if p.returncode:
                out["errors"].append(c + ": " + (p.stderr.strip().splitlines() or ["?"])[-1][:150])
                if "Error" in out["errors"][-1]:
                    break
            else:
                out["missed"].append(c)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    order = opt("--own", ",".join(ORDER)).split(",")
    substring, every, jobs = opt("--file", ""), int(opt("--every", "1")), int(opt("--jobs", "4"))
    grep = opt("--grep", "")
    work = []
    base = "/repo/atlas_doc_parser"
    for folder, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "docs", "vendor", "__pycache__", "templates"))
        for name in sorted(files):
            file = os.path.relpath(os.path.join(folder, name), base)
            if not name.endswith(".py") or name in ("paths.py", "_version.py", "__init__.py", "api.py", "type_enum.py") or substring not in file:
                continue
            source = open(os.path.join(base, file)).read()
            tree = ast.parse(source)
            for label, i, fn in sites(tree):
                if grep and grep not in label:
                    continue
                try:
                    text = mutant(source, i, fn)
                    compile(text, file, "exec")
                except Exception as e:
                    print("cannot make", file, label, repr(e))
                    continue
                work.append((file, label, text, order))
    if "--again" in args:
        with open(opt("--again", "")) as f:
            done = {(x["file"], x["mutation"]) for x in map(json.loads, f) if x["caught"] or x["errors"] and not x["missed"]}
        work = [w for w in work if (w[0], w[1]) not in done]
    work = work[::every]
    print(len(work), "mutants", flush=True)
    with open(args[0], "w") as f, ThreadPoolExecutor(jobs) as ex:
        for out in ex.map(judge, work):
            f.write(json.dumps(out) + "\n")
            f.flush()
            if not out["caught"]:
                print("SURVIVES", out["file"], out["mutation"], out["errors"][:2], flush=True)


main()
