import re

from hypothesis import strategies as st

from lib import lists, mdparse, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("(a) a tree of task lists with arbitrary inline content: its exact lines; (b) the same with ordinary words at "
        "document level and in expands, panels, list items and cells: one item line per task with its state, in order, "
        "four spaces per level, and markdown-it finds every task's words in its own item. Non-trivial: at least two tasks.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser", "in (b) every task list begins with a task"]
EXAMPLES = {"quick": 2480, "thorough": 48000}
REQUIRED_CLASSES = ["lines", "in doc", "in expand", "in nestedExpand", "in panel", "in listItem", "in cell", "DONE", "TODO",
                    "nested", "level 3", "level>=10", "empty task", "hard break in task"]

CONTEXTS = ["doc", "expand", "nestedExpand", "panel", "listItem", "cell"]


def task_list(g, depth):
    n = g.put_attrs({"type": "taskList"})
    content = []
    for i in range(g.int(1, 4)):
        if i and depth and g.flip(2):
            content.append(task_list(g, depth - 1))
        else:
            t = g.n_taskItem()
            if g.flip(4) and t.get("content"):
                t["content"] = t["content"] + [{"type": "hardBreak"}] * g.int(1, 2) + [{"type": "text", "text": g.words()}]
            content.append(t)
    n["content"] = content
    return n


def _deep(g):
    n = None
    for _ in range(g.int(4, 24)):
        content = [g.n_taskItem() for _ in range(g.int(1, 2))]
        if n is not None:
            content.insert(g.int(1, len(content)), n)
        n = g.put_attrs({"type": "taskList"})
        n["content"] = content
    return {"kind": "lines", "d": n}


def _lines(g):
    return {"kind": "lines", "d": task_list(g, g.int(0, 4)) if g.flip() else g.n_taskList(3)}


def _read(g):
    ctx = g.pick(CONTEXTS)
    t = task_list(g, g.int(0, 3))
    if ctx != "doc" and ctx != "expand" and ctx != "panel":
        before = [{"type": "paragraph", "content": [{"type": "text", "text": g.words()}]}]
    else:
        before = [g.n_word_paragraph()] if g.flip() else []
    after = [{"type": "paragraph", "content": [{"type": "text", "text": g.words()}]}] if ctx != "listItem" else []
    blocks = before + [t] + after
    if ctx == "doc":
        content = blocks
    elif ctx == "expand":
        content = [{"type": "expand", "content": blocks}]
    elif ctx == "nestedExpand":
        content = [{"type": "expand", "content": [{"type": "nestedExpand", "attrs": {}, "content": blocks}]}]
    elif ctx == "panel":
        content = [{"type": "panel", "attrs": {"panelType": "tip"}, "content": blocks}]
    elif ctx == "listItem":
        content = [{"type": g.pick(["bulletList", "orderedList"]), "content": [{"type": "listItem", "content": blocks}]}]
    else:
        content = [{"type": "table", "content": [{"type": "tableRow", "content": [
            {"type": "tableHeader", "content": blocks}]}]}]
    return {"kind": "read back", "ctx": ctx, "d": {"type": "doc", "version": 1, "content": content}}


def cases():
    return st.one_of(built(_lines, wild=True), built(_lines, wild=True), built(_read, md=True), built(_read, md=True),
                     built(_deep, wild=True))


def tasks(n, level=0):
    """(level, state, node) of every task below a task list."""
    for c in n["content"]:
        if c["type"] == "taskList":
            yield from tasks(c, level + 1)
        else:
            yield level, c["attrs"]["state"], c


def check(case, note):
    d = case["d"]
    first = next(n for n in tree.nodes(d) if n["type"] == "taskList")
    all_tasks = list(tasks(first))
    for level, state, t in all_tasks:
        note(state, "level %d" % level, *(["nested"] if level else []), *(["level>=10"] if level >= 10 else []))
        if not t.get("content"):
            note("empty task")
        if any(c["type"] == "hardBreak" for c in t.get("content", ())):
            note("hard break in task")
    note.nontrivial(len(all_tasks) >= 2)
    text = md(d)
    if case["kind"] == "lines":
        same([lists.loose(x) for x in text.split("\n")], [lists.loose(x) for _, x in lists.lines_of(d)] or [""],
             "lines of the task list\n" + text)
        note("lines")
        # the same as part of a list of the caller's, so many levels down
        level = len(text) % 4
        inner = md(d, level=level)
        same([lists.loose(x) for x in inner.split("\n")], [lists.loose(x) for _, x in lists.lines_of(d, level)] or [""],
             "lines of the task list at level %d\n%s" % (level, inner))
        return
    note("in " + case["ctx"])
    # one item line per task, in order, with its state and indentation
    source = text
    base = 1 if case["ctx"] == "listItem" else 0
    if case["ctx"] == "cell":
        source = source.replace("<br>", "\n").replace("&nbsp;", " ")
    elif case["ctx"] == "panel":
        source = "\n".join(x[2:] for x in source.split("\n"))
    got = [(len(m.group(1)), m.group(2), mdparse.TOKEN.findall(m.group(3)))
           for m in re.finditer(r"^( *)- \[(.)\] (.*)$", source, re.M)]
    want = []
    for level, state, t in all_tasks:
        ws = []
        for c in t.get("content", ()):
            if c["type"] == "hardBreak":
                break
            ws += mdparse.TOKEN.findall(mdparse.leaf_text(c))
            if c["type"] == "inlineCard":
                ws += mdparse.TOKEN.findall(c["attrs"]["url"])
            for m in c.get("marks", ()):
                if m["type"] == "link" and c["type"] == "text":
                    ws += mdparse.TOKEN.findall(m["attrs"]["href"])
        want.append(((level + base) * 4, "x" if state == "DONE" else " ", ws))
    same(got, want, "task lines (indentation, box, words)\n" + text)
    got, exp = mdparse.normal(mdparse.Read(text).words), mdparse.normal(mdparse.expected(d))
    for x, y in zip(got + [None], exp + [None]):
        if x != y:
            require(False, "reading the tasks back: found %r, expected %r\n%s", x, y, text)
