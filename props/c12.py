import re

from lib import mdparse, tree
from lib.gen import built
from lib.sut import md, require

RULE = ("A document of ordinary words built from all block types in any order and nesting that Markdown can express "
        "(DESIGN.md). Its Markdown is read back by markdown-it; every word must be in the same chain of headings, lists, "
        "items, quotes, code blocks and table cells. Non-trivial: at least two blocks with words.")
ASSUMPTIONS = ["markdown-it (CommonMark with tables) is the standard Markdown parser",
               "limits of Markdown: neighbouring lists of the same kind merge, cells hold no blocks, a table without a "
               "header row is plain text, an item begins with a paragraph of words"]
EXAMPLES = {"quick": 2250, "thorough": 48000}
REQUIRED_CLASSES = ["depth>=8", "headerless table", "paragraph", "heading", "rule", "bulletList", "orderedList",
                    "taskList", "decisionList", "codeBlock", "blockquote", "panel", "expand", "table", "blockCard",
                    "embedCard", "extension", "mediaSingle", "mediaGroup"]

TOKEN = mdparse.TOKEN


def cases():
    return built(lambda g: g.doc(lo=1, hi=7), md=True)


def compare(d, text):
    got = mdparse.normal(mdparse.Read(text).words)
    want = mdparse.normal(mdparse.expected(d))
    if got != want:
        for x, y in zip(got + [None], want + [None]):
            if x != y:
                require(False, "reading the Markdown back: found %r, expected %r\n%s", x, y, text)


def lines_are_separate(d, text):
    block = mdparse.blocks(d)
    for line in re.split(r"\n|<br>|(?<!\\)\|", text):
        found = {block[t] for t in TOKEN.findall(line) if t in block}
        require(len(found) <= 1, "two blocks share the line %r\n%s", line, text)


def check(d, note):
    text = md(d)
    lines_are_separate(d, text)
    compare(d, text)
    for n in tree.nodes(d):
        if n["type"] == "table" and n["content"][0]["content"][0]["type"] != "tableHeader":
            note("headerless table")
    note(*tree.shape(d))
    note.nontrivial(len(set(mdparse.blocks(d).values())) >= 2)
