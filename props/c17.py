import re

from hypothesis import strategies as st

from lib import mdparse, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("(a) any table with arbitrary backslash-free text (pipes, line breaks, code, nested blocks) in its cells: the "
        "grid cut out of the Markdown by unescaped pipes, with line breaks, spaces and pipes restored, must be the cells' "
        "content, and with backslashes in the text each pipe still has its own; (b) tables with a header row of ordinary words in documents, panels' neighbours and expands read back "
        "by markdown-it: same rows, columns and words. Non-trivial: at least two cells.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser",
               "a cell's content is the sequence of its blocks as rendered alone, each on its own line"]
EXAMPLES = {"quick": 2700, "thorough": 40000}
REQUIRED_CLASSES = ["grid", "read back", "header row", "no header", "header column", "empty row", "empty cell",
                    "no rows", "pipe in cell", "line break in cell", "leading space", "blocks in cell", "one column",
                    "later header row", "17 columns", "17 rows", "20 leading spaces", "pipe after backslash"]

UNESCAPED = re.compile(r"(?<!\\)\|")


def no_backslash(x):
    if isinstance(x, dict):
        return {k: no_backslash(v) for k, v in x.items()}
    if isinstance(x, list):
        return [no_backslash(v) for v in x]
    return x.replace("\\", "/") if isinstance(x, str) else x


def _grid(g):
    g.fuel = g.int(3, 30)
    t = g.n_table(g.int(1, 3))
    return {"kind": "grid", "d": no_backslash(t)}


def _backslash(g):
    """Text full of backslashes and pipes: every pipe still gets a backslash of its own."""
    g.fuel = g.int(3, 20)
    return {"kind": "backslash", "d": g.n_table(g.int(1, 2))}


def _slashed(g):
    rows = []
    for _ in range(g.int(1, 3)):
        rows.append({"type": "tableRow", "content": [
            {"type": g.pick(["tableHeader", "tableCell"]), "content": [
                {"type": "paragraph", "content": [{"type": "text", "text": "".join(
                    g.pick(["|", "\\", "a", " b ", "\\|", "||"]) for _ in range(g.int(1, 6)))}]}]}
            for _ in range(g.int(1, 3))]})
    return {"kind": "backslash", "d": {"type": "table", "content": rows}}


def _wide(g):
    """Many columns, many rows or both, with hardly anything in the cells."""
    cols, rows = g.pick([(g.int(10, 40), g.int(1, 3)), (g.int(1, 3), g.int(10, 40)), (g.int(60, 120), 2)])
    head = g.pick(["row", "column", "none"])
    t = {"type": "table", "content": []}
    for r in range(rows):
        row = []
        for c in range(cols):
            text = [{"type": "text", "text": g.pick(["x", "|", " ", g.tok(), " " * g.int(1, 60) + "x"])}] if g.flip(3) else []
            row.append({"type": "tableHeader" if (head == "row" and not r) or (head == "column" and not c) else "tableCell",
                        "content": [{"type": "paragraph", "content": text}]})
        t["content"].append({"type": "tableRow", "content": row})
    return {"kind": "grid", "d": t}


def _read(g):
    g.fuel = g.int(3, 30)
    cols, rows = g.int(1, 4), g.int(1, 4)
    column = g.flip(3)
    t = g.put_attrs({"type": "table"})
    t["content"] = []
    for r in range(rows):
        row = g.put_attrs({"type": "tableRow"})
        row["content"] = [g.n_cell("tableHeader" if r == 0 or (column and c == 0) else "tableCell", 2)
                          for c in range(cols)]
        t["content"].append(row)
    before = [g.block(g.pick(["paragraph", "bulletList", "heading", "codeBlock", "blockquote", "mediaSingle"]), 0)]
    after = [g.block(g.pick(["paragraph", "orderedList", "heading", "rule", "panel", "extension", "table"]), 0)]
    content = (before if g.flip() else []) + [t] + (after if g.flip() else [])
    if g.flip(4):
        content = [{"type": "expand", "content": content}]
    return {"kind": "read back", "d": {"type": "doc", "version": 1, "content": content}}


def cases():
    return st.one_of(built(_grid, wild=True, loose=14), built(_grid), built(_read, md=True), built(_read, md=True),
                     built(_wide), built(_backslash, wild=True, loose=14), built(_slashed))


def cell_lines(cell):
    """The lines of a cell: its blocks alone, one after the other."""
    text = ""
    for b in cell["content"]:
        part = md(b)
        if text and part and not text.endswith("\n") and not part.startswith("\n"):
            text += "\n"
        text += part
    return text.split("\n")


def cell_text(cell):
    """The same in one line, pipes as they are."""
    # line breaks: <br> in the text itself stands for nothing else
    return "<br>".join("&nbsp;" * (len(x) - len(x.lstrip(" "))) + x.lstrip(" ") for x in cell_lines(cell))


def check(case, note):
    if case["kind"] == "read back":
        return check_read(case["d"], note)
    t = case["d"]
    text = md(t)
    rows = t["content"]
    head = bool(rows and rows[0]["content"] and rows[0]["content"][0]["type"] == "tableHeader")
    lines = text.split("\n") if text else []
    label(t, head, note)
    note("grid")
    if max([len(r["content"]) for r in rows], default=0) > 16:
        note("17 columns")
    if len(rows) > 16:
        note("17 rows")
    want_lines = len(rows) + (1 if head else 0)
    require(len(lines) == want_lines, "%d rows give %d lines\n%s", len(rows), len(lines), text)
    if head:
        sep = lines.pop(1)
        same([x.strip() for x in UNESCAPED.split(sep)], [""] + ["---"] * len(rows[0]["content"]) + [""],
             "separator line\n" + text)
    for row, line in zip(rows, lines):
        cells = row["content"]
        require(line.startswith("|") and line.endswith("|"), "row %r", line)
        if case["kind"] == "backslash":
            # where a cell ends is for the reader to say; what stands in the line is not
            whole = "| " + " | ".join(cell_text(c).replace("|", "\\|") for c in cells) + " |"
            if cells:
                same(line, whole, "row with backslashes")
                if any("\\|" in cell_text(c) for c in cells):
                    note("pipe after backslash")
            continue
        parts = UNESCAPED.split(line)[1:-1]
        if not cells:
            require(not "".join(parts).strip(), "an empty row gives %r", line)
            continue
        require(len(parts) == len(cells), "%d cells give %r", len(cells), line)
        for cell, part in zip(cells, parts):
            require(part.startswith(" ") and part.endswith(" "), "cell %r is not padded", part)
            content = part[1:-1]
            want = cell_text(cell)
            same(content.replace("\\|", "|"), want, "content of a cell\n" + line)
            same(content.count("\\|"), want.count("|"), "escaped pipes in %r" % content)
    note.nontrivial(sum(len(r["content"]) for r in rows) >= 2)


def label(t, head, note):
    rows = t["content"]
    note("header row" if head else "no header")
    if not rows:
        note("no rows")
    if any(not r["content"] for r in rows):
        note("empty row")
    if any(len(r["content"]) == 1 for r in rows):
        note("one column")
    if any(r["content"] and r["content"][0]["type"] == "tableHeader" for r in rows[1:]):
        note("later header row")
        if head:
            note("header column")
    for r in rows:
        for c in r["content"]:
            if not c["content"]:
                note("empty cell")
            if any(b["type"] != "paragraph" for b in c["content"]):
                note("blocks in cell")
            for n in tree.nodes(c):
                if n["type"] == "text":
                    if "|" in n["text"]:
                        note("pipe in cell")
                    if n["text"].startswith(" "):
                        note("leading space")
                        if n["text"].startswith(" " * 20):
                            note("20 leading spaces")
                if n["type"] == "hardBreak":
                    note("line break in cell")


def check_read(d, note):
    text = md(d)
    read = mdparse.Read(text)
    tables = [n for n in tree.nodes(d) if n["type"] == "table"]
    headed = [t for t in tables if t["content"][0]["content"][0]["type"] == "tableHeader"]
    want = []
    for t in headed:
        grid = []
        for r in t["content"]:
            grid.append([[w.tok for w in words(c)] for c in r["content"]])
        want.append(grid)
    same(read.tables, want, "tables read back\n" + text)
    got, exp = mdparse.normal(read.words), mdparse.normal(mdparse.expected(d))
    for x, y in zip(got + [None], exp + [None]):
        if x != y:
            require(False, "reading the document back: found %r, expected %r\n%s", x, y, text)
    note("read back")
    for t in tables:
        label(t, t in headed, note)
    note.nontrivial(bool(headed) and sum(len(r) for r in want[0]) >= 2)


def words(cell):
    return [w for b in cell["content"] for w in mdparse.expected(b)]
