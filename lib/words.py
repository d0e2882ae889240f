"""A fuzzing dictionary: the short string and number constants in the package's sources.

Code that treats one particular value specially usually spells that value out,
so the generators mix these constants into attribute values, texts and field
names.  Constants inside functions come in a list of their own, which is drawn
from more often.
"""

import ast
import os

from lib import sut

LIMIT = 24
TOOLS = ("gen_code.py", "paths.py", "vendor", "tests", "docs", "_version.py", "__pycache__")


def _add(node, hot, cold, inside):
    for name, value in ast.iter_fields(node):
        if name in ("annotation", "returns"):
            continue
        for child in value if isinstance(value, list) else [value]:
            if not isinstance(child, ast.AST):
                continue
            if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                continue  # documentation
            if isinstance(child, ast.Constant):
                (hot if inside else cold).add(child.value)
            _add(child, hot, cold, inside or isinstance(child, (ast.FunctionDef, ast.Lambda)))


def collect():
    hot, cold = set(), set()
    top = os.path.join(sut.REPO, "atlas_doc_parser")
    for folder, dirs, files in os.walk(top):
        dirs[:] = [d for d in dirs if d not in TOOLS]
        for name in files:
            if name.endswith(".py") and name not in TOOLS:
                try:
                    with open(os.path.join(folder, name), "rb") as f:
                        _add(ast.parse(f.read()), hot, cold, False)
                except (OSError, SyntaxError, ValueError):
                    pass
    return hot, cold


def _strings(values):
    return sorted(w for w in values if isinstance(w, str) and len(w) <= LIMIT and w.isprintable() or w == "")


_HOT, _COLD = collect()
HOT = _strings(_HOT)
WORDS = _strings(_HOT | _COLD)
NUMBERS = sorted(x for x in _HOT | _COLD if type(x) is int and 0 <= x <= 10 ** 9)
HOT_NAMES = [w for w in HOT if any(c.isalpha() for c in w)] or [""]
