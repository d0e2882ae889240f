#!/usr/bin/env python3
"""Development tool: do the checks notice a defect that shows only under a rare condition?

    tools/rare.py OUT.jsonl [--serialise] [--class SUBSTRING] [--cond SUBSTRING] [--every N] [--jobs N] [--checks C11,C25]

For every class with to_markdown and every condition below, a copy of the package loses one character of the result when
the condition holds. The checks of that class's properties run on it; what none reports is a hole in the generators (or a
condition that cannot hold).
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {
    "text": "C11 C13", "paragraph": "C11 C12", "heading": "C14", "rule": "C14", "bulletList": "C15", "orderedList": "C15",
    "listItem": "C15", "taskList": "C16", "taskItem": "C16", "table": "C17", "tableRow": "C17", "tableCell": "C17",
    "tableHeader": "C17", "codeBlock": "C18", "blockquote": "C19", "panel": "C19", "decisionItem": "C19",
    "decisionList": "C19", "doc": "C21", "expand": "C22", "nestedExpand": "C22"}
COMMON = {
    "len>60": "len(md) > 60", "len>300": "len(md) > 300", "len>1500": "len(md) > 1500", "lines>8": "md.count('\\n') > 8",
    "lines>30": "md.count('\\n') > 30", "words>15": "len(md.split()) > 15", "word>30": "any(len(x) > 30 for x in md.split())",
    "upper": "re.search('[A-Z]', md)", "digit first": "md.lstrip()[:1].isdigit()", "nonascii": "not md.isascii()",
    "astral": "max(md) > '\\uffff'", "rtl": "'\\u05d0' <= max(md) <= '\\u05ff'", "combining": "'\\u0301' in md",
    "backslash": "'\\\\' in md", "backtick": "'`' in md", "pipe": "'|' in md", "star": "'*' in md", "tilde": "'~~' in md",
    "underscore": "'_' in md", "bracket": "'[' in md", "lt": "'<' in md", "amp": "'&' in md", "hash": "'#' in md",
    "gt": "'>' in md", "percent": "'%' in md", "brace": "'{' in md", "dollar": "'$' in md", "quote": "'\"' in md",
    "apostrophe": "\"'\" in md", "colon": "':' in md", "excl": "'!' in md", "tab": "'\\t' in md", "nbsp": "'\\u00a0' in md",
    "u2028": "'\\u2028' in md", "vt": "'\\x0b' in md", "two spaces": "'  ' in md.strip()", "leading space": "md[:1] == ' '",
    "trailing space": "md[-1:] == ' '", "br": "'<br>' in md", "http": "'://' in md", "dash first": "md.lstrip()[:2] == '- '",
    "ends backslash": "md.rstrip()[-1:] == '\\\\'", "ends digit": "md.rstrip()[-1:].isdigit()", "one char": "len(md.strip()) == 1",
    "lenient": "lenient", "None": "'None' in md", "true": "'true' in md.lower()", "same line twice": "any(a == b and a for a, b in zip(md.split('\\n'), md.split('\\n')[1:]))",
}
KIDS = "[c.type for c in (self.content if isinstance(getattr(self, 'content', None), list) else [])]"
PARENT = {
    "children>5": "len(kids) > 5", "children>9": "len(kids) > 9", "children>15": "len(kids) > 15", "children==3": "len(kids) == 3",
    "three same types": "any(a == b == c for a, b, c in zip(kids, kids[1:], kids[2:]))",
    "first is last": "len(kids) > 1 and kids[0] == kids[-1]", "equal neighbours": "any(a == b for a, b in zip(self.content, self.content[1:])) if kids else 0",
    "equal apart": "len(kids) > 2 and any(a == b for a, b in zip(self.content, self.content[2:]))",
    "sandwich": "len(kids) > 2 and any(a == c != b for a, b, c in zip(kids, kids[1:], kids[2:]))",
    "empty child": "any(getattr(c, 'content', None) == [] for c in self.content) if kids else 0",
    "child without content": "any(hasattr(c, 'content') and not isinstance(c.content, list) for c in self.content) if kids else 0",
    "three types": "len(set(kids)) > 2", "last empty": "kids and getattr(self.content[-1], 'content', 1) == []",
    "marks on child": "any(isinstance(getattr(c, 'marks', None), list) and len(c.marks) > 2 for c in self.content) if kids else 0",
}
ATTRS = {
    "all attrs": "attrs and all(v is not OPT for v in attrs.values()) and len(attrs) > 1", "no attrs": "attrs is not None and not any(v is not OPT for v in attrs.values())",
    "falsy attr": "attrs and any(v is not OPT and not v for v in attrs.values())",
    "wild attr": "attrs and any(isinstance(v, str) and not v.isascii() for v in attrs.values())",
    "marks 1": "marks is not None and len(marks) == 1", "marks>2": "marks and len(marks) > 2", "marks []": "marks == []",
    "same mark twice": "marks and len({m.type for m in marks}) < len(marks)",
    "level>2": "level > 2", "level>6": "level > 6",
}
WRAPPER = '''

def _rare():
    import re, dataclasses
    from func_args.api import OPT
    cls = %(cls)s
    inner = cls.to_markdown

    def to_markdown(self, *args, **kw):
        md = inner(self, *args, **kw)
        level, lenient = kw.get("level", 0), kw.get("ignore_error", False)
        kids = [c.type for c in (self.content if isinstance(getattr(self, "content", None), list) else [])]
        a = getattr(self, "attrs", None)
        attrs = {f.name: getattr(a, f.name) for f in dataclasses.fields(a)} if dataclasses.is_dataclass(a) else None
        marks = getattr(self, "marks", None)
        marks = marks if isinstance(marks, list) else None
        if md and (%(cond)s):
            at = max([i for i, c in enumerate(md) if c.isalnum()] or [i for i, c in enumerate(md) if not c.isspace()] or [-1])
            if at >= 0:
                return md[:at] + md[at + 1:]
        return md

    cls.to_markdown = to_markdown


_rare()
'''


SERIALISE = '''

def _rare():
    import re, dataclasses, json
    from func_args.api import OPT
    cls = %(cls)s
    inner = cls.to_dict

    def to_dict(self):
        out = inner(self)
        level, lenient = 0, False
        md = json.dumps(out, ensure_ascii=False)
        kids = [c.type for c in (self.content if isinstance(getattr(self, "content", None), list) else [])]
        a = getattr(self, "attrs", None)
        attrs = {f.name: getattr(a, f.name) for f in dataclasses.fields(a)} if dataclasses.is_dataclass(a) else None
        marks = getattr(self, "marks", None)
        marks = marks if isinstance(marks, list) else None
        if %(cond)s:
            for k in ("attrs", "content", "marks"):
                if k in out and out[k]:
                    out[k] = out[k][:-1] if isinstance(out[k], list) else dict(list(out[k].items())[:-1])
                    return out
            if "text" in out:
                out["text"] = out["text"][:-1]
            elif "attrs" in out or "content" in out or "marks" in out:
                out.pop([k for k in ("attrs", "content", "marks") if k in out][0])
        return out

    cls.to_dict = to_dict


_rare()
'''


def classes():
    for f in sorted(glob.glob("/repo/atlas_doc_parser/nodes/node_*.py") + glob.glob("/repo/atlas_doc_parser/marks/mark_*.py")):
        src = open(f).read()
        for m in re.finditer(r"^class ((?:Node|Mark)(\w+))\(Base(?:Node|Mark)\)", src, re.M):
            t = m.group(2)[0].lower() + m.group(2)[1:]
            if t in ("caption", "mediaGroup", "mediaInline") and "--serialise" not in sys.argv:
                continue
            yield os.path.relpath(f, "/repo/atlas_doc_parser"), m.group(1), t


def judge(job):
    file, cls, label, cond, checks = job
    d = tempfile.mkdtemp(prefix="rare-")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        shutil.copytree("/repo/atlas_doc_parser", os.path.join(r, "atlas_doc_parser"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(r, "atlas_doc_parser", file), "a") as f:
            f.write((SERIALISE if "--serialise" in sys.argv else WRAPPER) % {"cls": cls, "cond": cond})
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for x in ("lib", "props", "check"):
            (shutil.copytree if os.path.isdir(os.path.join(ROOT, x)) else shutil.copy)(os.path.join(ROOT, x), os.path.join(v, x))
        env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_NO_SHRINK="1", VERIF_WORKERS="3")
        out = {"class": cls, "cond": label, "caught": [], "missed": [], "errors": []}
        for c in checks:
            p = subprocess.run(["./check", c], cwd=v, env=env, capture_output=True, text=True, timeout=600)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                out["caught"].append(c)
            elif p.returncode:
                out["errors"].append(c + (p.stderr.strip().splitlines() or ["?"])[-1][:200])
            else:
                out["missed"].append(c)
        return out
    except subprocess.TimeoutExpired:
        return {"class": cls, "cond": label, "caught": [], "missed": [], "errors": ["timeout"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    work = []
    for file, cls, t in classes():
        if opt("--class", "") not in cls:
            continue
        own = "C13" if cls.startswith("Mark") else CHECKS.get(t, "C20")
        checks = opt("--checks", own.replace(" ", ",")).split(",")
        conds = dict(COMMON)
        if "--serialise" in args:
            conds = {k: conds[k] for k in ("len>300", "len>1500", "upper", "astral", "combining", "tab", "vt", "None")}
        if cls.startswith("Node"):
            src = open("/repo/atlas_doc_parser/" + file).read()
            body = src[src.index("class %s(" % cls):]
            if "content:" in body:
                conds.update(PARENT)
            conds.update(ATTRS)
        for label, cond in conds.items():
            if opt("--cond", "") in label:
                work.append((file, cls, label, cond, checks))
    if "--again" in args:
        with open(opt("--again", "")) as f:
            old = {(x["class"], x["cond"]) for x in map(json.loads, f) if x["missed"] or x["errors"]}
        work = [w for w in work if (w[1], w[2]) in old]
    work = work[int(opt("--from", "0"))::int(opt("--every", "1"))]
    print(len(work), "mutants", flush=True)
    with open(args[0], "w") as f, ThreadPoolExecutor(int(opt("--jobs", "3"))) as ex:
        for out in ex.map(judge, work):
            f.write(json.dumps(out) + "\n")
            f.flush()
            if out["missed"] or out["errors"]:
                print("MISSED", out["class"], out["cond"], out["missed"], "caught", out["caught"], out["errors"], flush=True)


main()
