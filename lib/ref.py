"""An independent renderer: the documented conversion rules applied to raw ADF.

It never touches the library.  Written as string builders over dictionaries,
from the documentation of each node and mark class (docstrings of to_markdown,
docs/source) - the oracle of C25 and the yardstick of C06, C08 and C09.
"""

import datetime
import re

PADDED = {"bulletList", "orderedList", "codeBlock", "taskList", "decisionList", "table"}
LISTS = {"bulletList", "orderedList", "taskList"}


class RefError(Exception):
    """The node cannot be converted."""


# ------------------------------------------------------------------- helpers
def collapse(text):
    """At most one empty line in a row."""
    return re.sub(r"\n{3,}", "\n\n", text)


def prefix(text, p):
    lines = text.split("\n")
    tail = lines.pop()
    return "".join(p + x + "\n" for x in lines) + (p + tail if tail else "")


def is_blank(text):
    return not text.strip()


def blank_line(line):
    """Markdown's notion: spaces and tabs only."""
    return not line.strip(" \t")


def doc_join(children):
    out = []
    for c in children:
        md = render(c)
        out.append("\n" + md + "\n" if c["type"] in PADDED else md)
    return collapse("\n".join(out))


def cell_join(children):
    md = ""
    for c in children:
        b = render(c)
        if md and b and md[-1] != "\n" and b[0] != "\n":
            md += "\n"
        md += b
    return md


def inline(n):
    return "".join(render(c) for c in n.get("content", ()))


def longer_than_any_run(text, least):
    longest = max([0] + [len(x) for x in re.findall("`+", text)])
    return "`" * max(least, longest + 1)


# --------------------------------------------------------------------- marks
def apply_mark(m, text):
    t, a = m["type"], m.get("attrs", {})
    if t == "link":
        return "[" + (text if is_blank(a.get("title", "")) else a["title"]) + "](" + a["href"] + ")"
    if t == "indentation":
        return "\t" * a["level"] + text
    if t == "code":
        if "\n" in text:
            raise RefError("code")
        if is_blank(text):
            return text
        d = longer_than_any_run(text, 2)
        return d + " " + text + " " + d
    wrap = {"strong": "**", "em": "*", "strike": "~~"}.get(t, "")
    return text if is_blank(text) else wrap + text + wrap


def marked(n, text):
    for m in n.get("marks", ()):
        text = apply_mark(m, text)
    return text


# --------------------------------------------------------------------- lists
def list_lines(n, level):
    """The lines of a bullet or ordered list."""
    pad, body = " " * (4 * level), " " * (4 * level + 4)
    number = n.get("attrs", {}).get("order", 1) if level == 0 else 1
    lines = []
    for item in n["content"]:
        own = []
        for c in item["content"]:
            if c["type"] in LISTS:
                own += nested(c, level + 1)
            else:
                for x in render(c).rstrip().split("\n"):
                    own.append(x if blank_line(x) else body + x)
        own = own or [""]
        marker = "- " if n["type"] == "bulletList" else "%d. " % number
        first = own[0][len(body):] if own[0].startswith(body) else own[0]
        lines.append(pad + marker + first)
        wider = " " * max(0, len(marker) - 4)    # a number of three or more digits
        lines += [x if blank_line(x) else wider + x for y in own[1:] for x in y.split("\n")]
        number += 1
    return lines


def task_lines(n, level):
    pad = " " * (4 * level)
    lines = []
    for c in n["content"]:
        if c["type"] == "taskList":
            lines += nested(c, level + 1)
        else:
            box = "[x]" if c["attrs"]["state"] == "DONE" else "[ ]"
            own = inline(c).rstrip().split("\n")
            lines.append(pad + "- " + box + " " + own[0])
            lines += [x if blank_line(x) else pad + "    " + x for x in own[1:]]
    return lines


def nested(n, level):
    lines = task_lines(n, level) if n["type"] == "taskList" else list_lines(n, level)
    return lines or [""]


# -------------------------------------------------------------------- blocks
def decision(n):
    lines = [x.rstrip() for x in inline(n).rstrip().split("\n")]
    out, seen = [], 0
    for i, x in enumerate(lines):
        if x:
            out.append("> " + x)
            seen += 1
        elif seen > 1 and lines[i - 1]:
            out.append(">")
    return "\n".join(out)


def cell(n):
    out = []
    for x in cell_join(n["content"]).replace("|", "\\|").split("\n"):
        bare = x.lstrip(" ")
        out.append("&nbsp;" * (len(x) - len(bare)) + bare)
    return "<br>".join(out)


def row(n):
    return "| " + " | ".join(render(c) for c in n["content"]) + " |"


def table(n):
    lines = [render(r) for r in n["content"]]
    if n["content"]:
        head = n["content"][0]["content"]
        if head and head[0]["type"] == "tableHeader":
            lines.insert(1, "|" + " --- |" * len(head))
    return "\n".join(lines)


def code_block(n):
    code = inline(n)
    lang = n.get("attrs", {}).get("language", "none")
    fence = longer_than_any_run(code, 3)
    return fence + ("" if lang == "none" else lang) + "\n" + code + "\n" + fence


def heading(n):
    return "\n\n" + "#" * n["attrs"]["level"] + " " + inline(n).replace("  \n", " ").replace("\n", " ") + "\n\n"


def panel(n):
    head = "**" + n["attrs"]["panelType"].upper() + "**\n\n"
    return prefix(collapse(head + doc_join(n["content"])), "> ") + "\n"


# -------------------------------------------------------------------- leaves
def date(n):
    try:
        day = int(n["attrs"]["timestamp"]) // 86400000
        return datetime.date.fromordinal(719163 + day).isoformat()
    except (ValueError, OverflowError):
        raise RefError("date")


def link_to(n):
    if "url" not in n["attrs"]:
        raise RefError("card")
    return "[%s](%s)" % (n["attrs"]["url"], n["attrs"]["url"])


def media(n):
    a = n["attrs"]
    if a["type"] == "external" and "url" in a:
        target = a["url"]
    elif a["type"] == "file":
        target = "media:" + a["id"]
    elif a["type"] == "link":
        return "[media]"
    else:
        raise RefError("media")
    return marked(n, "![" + a.get("alt", "media") + "](" + target + ")")


def extension(n):
    a = n["attrs"]
    if a.get("text", "") != "":
        return "[Extension: " + a["extensionKey"] + "] " + a["text"]
    return "[Extension: " + a["extensionType"] + "/" + a["extensionKey"] + "]"


RULES = {
    "doc": lambda n: doc_join(n["content"]),
    "expand": lambda n: doc_join(n["content"]),
    "nestedExpand": lambda n: doc_join(n["content"]),
    "text": lambda n: marked(n, n["text"]),
    "hardBreak": lambda n: "  \n",
    "mention": lambda n: n["attrs"].get("text", "@Unknown"),
    "emoji": lambda n: n["attrs"].get("text", n["attrs"]["shortName"]),
    "date": date,
    "status": lambda n: "`" + n["attrs"]["text"] + "`",
    "inlineCard": link_to,
    "blockCard": lambda n: "\n" + link_to(n) + "\n",
    "embedCard": lambda n: "\n" + link_to(n) + "\n",
    "media": media,
    "mediaSingle": inline,
    "mediaGroup": lambda n: "",
    "mediaInline": lambda n: "",
    "caption": lambda n: "",
    "extension": extension,
    "rule": lambda n: "\n\n---\n\n",
    "codeBlock": code_block,
    "bulletList": lambda n: "\n".join(list_lines(n, 0)),
    "orderedList": lambda n: "\n".join(list_lines(n, 0)),
    "taskList": lambda n: "\n".join(task_lines(n, 0)),
    "listItem": lambda n: cell_join(n["content"]),
    "taskItem": inline,
    "paragraph": lambda n: marked(n, inline(n)) + "\n",
    "heading": heading,
    "decisionItem": decision,
    "decisionList": lambda n: "\n\n".join(render(c) for c in n["content"]),
    "blockquote": lambda n: prefix(doc_join(n["content"]), "> ") + "\n",
    "panel": panel,
    "table": table,
    "tableRow": row,
    "tableCell": cell,
    "tableHeader": cell,
}


def render(n):
    return RULES[n["type"]](n)


def convertible(n):
    """Whether a leaf can be rendered on its own."""
    try:
        render(n)
        return True
    except RefError:
        return False


LEAVES = {"text", "date", "inlineCard", "blockCard", "media"}   # the leaves that can fail


def prune(n):
    """The same tree without the leaves that cannot be converted."""
    if "content" not in n:
        return n
    out = dict(n)
    out["content"] = [prune(c) for c in n["content"] if not (c["type"] in LEAVES and not convertible(c))]
    return out
