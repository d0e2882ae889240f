"""Generators of schema-valid ADF.

Every random choice is one bounded integer drawn from Hypothesis (0 is always
the simplest choice), so cases shrink and depend on VERIF_SEED only.

Text modes
    safe   ordinary words; every visible word is a unique token
    wild   tokens mixed with arbitrary characters and Markdown syntax
``md=True`` additionally keeps to documents that Markdown can express (used by
the checks that read the Markdown back with a parser); see DESIGN.md.

Tokens: w0001w visible text, c0001c inside a shown URL or id, h0001h inside an
attribute that is not shown.
"""

import copy
import functools

from hypothesis import strategies as st

from lib import spec, words

FIRST_MS = -62135596800000  # 0001-01-01
LAST_MS = 253402300799999   # 9999-12-31
DAY = 86400000

WILD = ["|", "||", "\\", "`", "``", "```", "````", "*", "**", "_", "~~", "#", "# ", "- ", "> ", "1. ", "[", "]",
        "(", ")", "![", "](", "<br>", "&nbsp;", "&", "<b>", "---", "+", "!", "=", "- [x] ", " ", "  ", "    ", "\t",
        "\u00a0", "\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x85", "\u3000", "\u200b", "\ufeff", "é", "e\u0301",
        "日本語", "😀", "👩\u200d💻", "\u05d0", "İ", "ß", "\\n", "\"", "'", "{}", "{0}", "%s", "$1", "\\1", "None",
        "OPT", "@", ":", "media", "[media]", "https://x.example/a|b", "0", "&amp;", "\\|", "\\\\", "\u200c", "\u00ad",
        "\u202e", "ﬁ", "\u212b", "\ufe0f", "\x7f", "\x1f", "<!--", "<details>", "[ ]", "^", "|---|", "]: x", "${x}", "%", "--"]

PHRASES = ["Don't", "50%", "C:\\dir", "x.y@example.com", "3.14", "A&B", "x < y", "#1", "snake_case_name", "2 * 3 * 4", "~5",
           "e.g.", "(c)", "1)", "2.", "TODO", "v1.0", "$5", "\"so\"", "12:30", "2024-01-31", "1,000", "-5", "+1", "a|b", "Q&A:",
           "!important", "[x]", "*", "--flag", "`id`", "a/b", "The", "END.", "true", "null", "été", "Straße", "naïve", "—", "…",
           "100", "7", "A", "I/O", "f(x)", "{a}", "<tag>", "a\u00a0b", "it's", "’", "“q”", "=", "->", "a_b", "**bold**"]

LANGS = ["None", "NONE", "non", "none-of", "n", "plaintext", "c#", "PYTHON", "visual basic", "python", "none", "", "text", "java", "c++", "shell", "None", "js", "objective-c"]
# values that attributes without a documented list of values have in practice
SPELLINGS = ["bold", "mixedCase", "true", "false", "0", "1", "12", "none", "null", "default", "#ff0000", "left", "right",
             "top", "center", "wide", "small", "large", "hidden", "inherit", "auto", "en", "A", "a", "done", "DONE", "info"]
JSON_VALUES = [None, 0, "", False, True, 1, -3, 2.5, [], {}, [1, "a", None], {"a": {"b": [0]}}, {"type": "text"},
               "x", {"content": [{"type": "nope"}]}, [{"type": "strong"}]]


JSON_KEYS = ["a", "type", "text", "content", "attrs", "marks", "localId", "macroParams", "value", "", "_x", "__class__", "\u00e9", "data", "url"]


@functools.lru_cache(maxsize=None)
def _ints(lo, hi):
    return st.integers(lo, hi)


# what may stand where the schema does not allow it (loose=...)
LOOSE = spec.BLOCKS + ["nestedExpand", "media", "text", "inlineCard", "mention", "status"]


class Gen:
    def __init__(self, draw, wild=False, md=False, bad=0, fuel=None, newlines=True, extras=3, dups=14, loose=0, nulls=0):
        self._draw = draw
        self.wild = wild
        self.md = md
        self.loose = loose      # once in so many: a block where the schema does not allow it
        self.nulls = nulls      # once in so many: null for an optional attribute
        self.bad = bad          # one in `bad` convertible leaves becomes inconvertible (0: none)
        self.newlines = newlines  # text nodes may contain "\n" in wild mode
        self.extras = extras    # one in `extras` optional attributes is present
        self.dups = dups        # one in `dups` lists of children repeats some of them (0: none)
        self.n = 0
        self.fuel = self.int(2, 30) if fuel is None else fuel
        self.rate = self.bushy = None  # properties of the whole case, drawn when first needed
        self.favourites = None  # characters that this case uses often
        self.said = []          # texts and addresses of this case, to be said again elsewhere
        self.long = 2           # how many lists of children may still be long

    # ------------------------------------------------------------ primitives
    def int(self, lo, hi):
        return self._draw(_ints(lo, hi)) if hi > lo else lo

    def flip(self, n=2):
        """True once in n; shrinks to False."""
        return self.int(0, n - 1) == n - 1

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def tok(self, k="w"):
        self.n += 1
        return "%s%04d%s" % (k, self.n, k)

    def extra(self):
        """Whether an optional attribute is present; a few cases have all of them or hardly any."""
        if self.rate is None:
            self.rate = self.pick([self.extras] * 4 + [1, 8])
        return self.flip(self.rate)

    def many(self, rare):
        """Whether a list of children is long; in one case of eight that is likely."""
        if self.bushy is None:
            self.bushy = self.flip(8)
        return self.flip(2 if self.bushy else rare)

    # ------------------------------------------------------------------ text
    def words(self, lo=1, hi=3):
        n = self.int(lo, hi)
        if n == hi and self.flip(24):
            n = self.int(hi, 40) if not self.flip(4) else self.int(40, 300)
        return " ".join(self.tok() for _ in range(n))

    def constant(self):
        """A constant of the package's sources."""
        return self.pick([words.HOT_NAMES, words.HOT, words.WORDS, SPELLINGS][self.int(0, 3)])

    def wild_char(self):
        if self.favourites is None:
            self.favourites = [self.pick(WILD) for _ in range(self.int(1, 3))]
        k = self.int(0, 9)
        if k < 4:
            return self.pick(WILD)
        if k > 7:
            return self.pick(self.favourites)
        if k <= 5:
            return self.constant()
        c = self.int(1, 0x10FFFF)
        if c == 13 or c == 10 or 0xD800 <= c <= 0xDFFF:
            c = 0x41
        return chr(c)

    def text(self, nl=True):
        """Visible text."""
        if not self.wild:
            return self.words()
        t = self.echo(nl) or self.new_text(nl)
        self.said.append(t)
        return t

    def echo(self, nl=False):
        """What was said before in this case (the text of a link may be its address, its title its text, ...)."""
        if self.said and self.flip(16):
            t = self.pick(self.said[-4:] if not self.flip(3) else self.said)
            return t if nl else t.replace("\n", "")
        return None

    def new_text(self, nl):
        k = self.int(0, 12)
        if k == 0:
            return self.words()
        if k == 8:
            return self.pick(["", " ", "  ", "\t", "\u00a0", "\u2028"])
        if k > 10:
            return self.pick(["", "", "", " "]) + " ".join(
                self.pick(PHRASES) for _ in range(self.int(1, 5) if not self.flip(6) else self.int(6, 40))) + self.pick(["", "", " "])
        parts = []
        for _ in range(self.int(1, 4) if not self.flip(20) else self.int(5, 40)):
            parts.append(self.wild_char() if self.flip() else self.tok())
        if k == 10:
            parts.insert(0, self.pick([" ", "  ", "    ", "\t", " " * self.int(5, 60)]))
        if nl and self.newlines and k == 9:
            parts.insert(self.int(0, len(parts)), self.pick(["\n", "\n\n", "\n\n\n", "  \n", "\n   "]))
        return "".join(parts)

    def hidden(self):
        k = self.int(0, 8)
        if k == 8:
            return ""
        if k > 5:
            return self.constant()
        if k > 3 and self.wild:
            return self.echo() or self.wild_char()
        return self.tok("h")

    def url(self):
        t = self.new_url()
        if self.wild:
            t = self.echo() or t
            self.said.append(t)
        return t

    def new_url(self):
        t = self.tok("c")
        if self.wild and self.flip(4):
            if self.flip():
                return self.text(nl=False)
            return self.pick(["", " ", t, t + ")", "/" + t + "|x", "https://" + t + ".example/(a)?b=c&d=[e]#f"])
        return "https://" + t + ".example/p"

    def ms(self):
        k = self.int(0, 4)
        if k == 0:
            v = self.int(0, 3_000_000_000_000)
        elif k == 1:
            v = DAY * self.int(-40000, 40000) + self.pick([0, 1, -1, 999, -999, DAY // 2])
        elif k == 2:
            v = self.int(FIRST_MS, LAST_MS)
        elif k == 3:
            v = self.pick([0, 1, -1, 999, 1000, -1000, FIRST_MS, LAST_MS, DAY - 1, DAY, -DAY, -DAY - 1,
                           951782400000, 951868799999, 4102444800000])
        else:
            v = self.int(-3_000_000_000_000, 0)
        return str(v)

    def value(self, kind):
        """A value of an attribute that is not shown."""
        if isinstance(kind, list):
            return self.pick(kind)
        if kind == "str":
            return self.hidden()
        if kind == "url":
            return self.hidden()
        if kind == "int":
            return self.pick([0, 1, 2, 7, 100, 1920] + words.NUMBERS)
        if kind == "num":
            return self.pick([0, 1, 50, 33.33, 0.0, 760, 100.0] + words.NUMBERS)
        if kind == "bool":
            return self.flip()
        if kind == "any":
            if self.flip():
                return self.json(self.int(1, 3))
            return self.pick(JSON_VALUES[1:])
        if kind == "obj":
            if self.flip(3):
                return self.json(self.int(1, 3), dict)
            return self.pick([{}, {"a": 0}, {"@type": "Document", "name": "n", "url": "u"}])
        if kind == "ints":
            return self.pick([[], [0], [1, 0], [120, 340, 0]])
        if kind == "strs":
            return self.pick([[], ["a"], ["", "b"], ["x", "y", "z"]])
        if kind == "datasource":
            return {"id": self.hidden(), "parameters": self.pick([{}, {"cloudId": "c", "jql": ""}, {"a": {"b": None, "c": []}}]),
                    "views": self.pick([[{"type": "table"}], [{"type": "table", "properties": {}}], []])}
        if kind == "lang":
            return self.pick(LANGS)
        if kind == "order":
            usual = [1, 0, 2, 3, 7, 10, 42, 9, 99, 100, 999, 123456]
            # more than nine digits are no list marker of Markdown any more
            return self.pick(usual + [10 ** 9 - 1, 10 ** 9, 2 ** 31, 20241231235959, 2 ** 64] if self.wild and not self.md else usual)
        if kind == "ms":
            return self.ms()
        raise AssertionError(kind)

    def json(self, depth, kind=None):
        """Any JSON value but null."""
        kind = kind or self.pick([dict, dict, list, str])
        if kind is str or not depth:
            return self.pick(["x", "", 0, False, True, 2.5, -1, "null", [], {}])
        inner = [None if self.flip(4) else self.json(depth - 1) for _ in range(self.int(1, 3))]
        return inner if kind is list else dict(zip((self.pick(JSON_KEYS) + ("" if i == 0 else str(i)) for i in range(3)), inner))

    # ----------------------------------------------------------------- marks
    def mark(self, t):
        m = {"type": t}
        attrs = spec.MARKS[t]
        if attrs is not None:
            a = {}
            for name, (req, kind) in attrs.items():
                shown = name in spec.SHOWN_MARK.get(t, ())
                if req:
                    if t == "link" and name == "href":
                        a[name] = self.url()
                    else:
                        a[name] = self.value(kind)
                elif t == "link" and name == "title":
                    if not self.md and self.flip(6):
                        a[name] = self.text(nl=False) if self.flip(4) or not self.wild else self.pick(["", "", " ", "\t"])
                elif not shown and self.extra():
                    a[name] = self.value(kind)
                if not req and self.nulls and self.flip(self.nulls):
                    a[name] = None
            m["attrs"] = a
        return m

    def marks(self, kinds, hi=3):
        """A list of distinct marks in any order."""
        out, left = [], list(kinds)
        for _ in range(self.int(0, hi)):
            if not left:
                break
            t = left.pop(self.int(0, len(left) - 1))
            out.append(self.mark(t))
            if t == "annotation" and not self.flip(3):
                left.append(t)      # comments overlap
        if out and self.wild and not self.md and self.flip(12):
            out.insert(self.int(0, len(out)), copy.deepcopy(self.pick(out)))
        return out

    def opt_marks(self, node, kinds, hi=2, rate=3):
        if kinds and self.flip(rate):
            node["marks"] = self.marks(kinds, hi)

    # ----------------------------------------------------------------- attrs
    def attrs(self, t):
        out = {}
        shown = spec.SHOWN.get(t, ())
        for name, (req, kind) in spec.NODES[t].attrs.items():
            if name in shown:
                continue
            if req or self.extra():
                out[name] = self.value(kind)
        return out

    def put_attrs(self, node, shown=None):
        """attrs with the given shown attributes; absent when optional and empty, sometimes."""
        t = node["type"]
        a = self.attrs(t)
        a.update(shown or {})
        if self.nulls:
            for name, (req, kind) in spec.NODES[t].attrs.items():
                if not req and name not in ("url", "id") and self.flip(self.nulls):
                    a[name] = None
        if a or spec.NODES[t].attrs_required or self.flip(4):
            node["attrs"] = a
        return node

    def is_bad(self):
        return self.bad and self.flip(self.bad)

    # ---------------------------------------------------------------- inline
    def n_text(self, plain=False):
        n = {"type": "text", "text": self.text()}
        if plain:
            n["text"] = self.words()
            return n
        if self.flip(2):
            ms = self.marks(spec.TEXT_MARKS, self.pick([1, 1, 2, 4]))
            if self.md:
                # a code span shows everything inside it literally
                ms.sort(key=lambda m: m["type"] != "code")
            if self.is_bad():
                ms = [m for m in ms if m["type"] != "code" and not (m["type"] == "link" and "title" in m["attrs"])]
                ms.insert(self.int(0, len(ms)), {"type": "code"})
                n["text"] = self.tok() + "\n" + self.tok()
            elif any(m["type"] == "code" for m in ms):
                n["text"] = n["text"].replace("\n", "")
            n["marks"] = ms
        return n

    def n_hardBreak(self):
        return self.put_attrs({"type": "hardBreak"})

    def n_mention(self):
        a = {}
        if not self.flip(3):
            a["text"] = ("" if self.flip(4) else "@") + self.text(nl=False) if not (self.wild and self.flip(6)) else ""
        return self.put_attrs({"type": "mention"}, a)

    def n_emoji(self):
        a = {"shortName": ":%s:" % self.tok()}
        if self.wild and self.flip(4):
            a["shortName"] = self.text(nl=False)
        if self.flip(2):
            a["text"] = self.text(nl=False)
        return self.put_attrs({"type": "emoji"}, a)

    def n_date(self):
        if self.is_bad():
            v = self.pick(["", "yesterday", "99999999999999999", "-99999999999999999", "2024-01-01", "12.5"])
        else:
            v = self.ms()
        return self.put_attrs({"type": "date"}, {"timestamp": v})

    def n_status(self):
        text = self.text(nl=False)
        return self.put_attrs({"type": "status"}, {"text": text})

    def n_inlineCard(self):
        a = {} if self.is_bad() else {"url": self.url()}
        return self.put_attrs({"type": "inlineCard"}, a)

    def n_mediaInline(self):
        n = self.put_attrs({"type": "mediaInline"})
        self.opt_marks(n, spec.MEDIA_MARKS)
        return n

    def inlines(self, kinds=None, lo=0, hi=4, first_word=False):
        kinds = kinds or spec.INLINE
        out = []
        if first_word:
            out.append({"type": "text", "text": self.words()})
            lo, hi = max(0, lo - 1), hi - 1
        n = self.int(lo, hi)
        if n == hi and self.long and self.many(24):
            self.long -= 1
            n = self.int(hi, 13) if not self.flip(3) else self.int(14, 40)
        for _ in range(n):
            # text is by far the most frequent inline node
            t = "text" if self.int(0, 1) == 0 else self.pick(kinds)
            # (what shows nothing gets no second separator: four spaces at the start of a line are a code block)
            if self.md and out and out[-1]["type"] not in ("hardBreak", "mediaInline"):
                out.append({"type": "text", "text": " "})
            out.append(getattr(self, "n_" + t)())
            if t == "hardBreak" and self.flip(3):
                out += [self.n_hardBreak() for _ in range(self.int(1, 2))]
                if self.flip():
                    out.append(self.n_text())
        if not self.md and not first_word:
            self.repeat(out)
        return out

    def opt_inlines(self, node, lo=0, hi=4, kinds=None):
        if self.md:
            node["content"] = self.inlines(kinds, lo, hi, first_word=True)
        elif not self.flip(8):
            node["content"] = self.inlines(kinds, lo, hi)
        return node

    # ---------------------------------------------------------------- blocks
    def n_paragraph(self):
        n = self.put_attrs({"type": "paragraph"})
        if self.md and self.flip(8):
            pass  # empty paragraph
        else:
            self.opt_inlines(n)
        self.opt_marks(n, ["alignment"] if self.md else spec.BLOCK_MARKS, rate=5)
        return n

    def n_word_paragraph(self):
        n = self.put_attrs({"type": "paragraph"})
        n["content"] = self.inlines(None, 1, 3, first_word=True)
        return n

    def n_heading(self):
        n = self.put_attrs({"type": "heading"}, {"level": self.pick([1, 2, 3, 4, 5, 6])})
        self.opt_inlines(n, 0, 3)
        self.opt_marks(n, spec.BLOCK_MARKS, rate=6)
        return n

    def n_rule(self):
        return self.put_attrs({"type": "rule"})

    def code_text(self):
        if not self.wild:
            lines = []
            for _ in range(self.int(1, 4) if not self.flip(40) else self.int(5, 100)):
                k = self.int(0, 4)
                lines.append([self.tok(), "    " + self.tok(), "", "def %s():" % self.tok(), self.tok() + "  "][k])
            return "\n".join(lines)
        parts = []
        for _ in range(self.int(0, 6) if not self.flip(30) else self.int(7, 300)):
            k = self.int(0, 4)
            parts.append([self.tok(), "\n", self.wild_char(), "\n\n\n", self.pick(PHRASES) + " "][k])
        return "".join(parts)

    def n_codeBlock(self):
        n = {"type": "codeBlock"}
        a = {}
        if self.flip(2):
            a["language"] = self.value("lang")
        self.put_attrs(n, a)
        if not self.flip(8) or self.md:
            k = 1
            if not self.md and self.flip(6):
                k = self.int(0, 3) if not self.flip(6) else self.int(4, 20)
            n["content"] = [{"type": "text", "text": self.code_text()} for _ in range(k)]
        return n

    def n_media(self):
        t = self.pick(["external", "file", "link"])
        a = {"type": t}
        if t == "external":
            if self.is_bad():
                if self.flip():
                    a["type"] = "video"
            else:
                a["url"] = self.url()
            if self.flip(6):
                a["id"] = self.tok("c") if t == "file" else self.tok("h")
        else:
            a["id"] = self.tok("c") if t == "file" else self.tok("h")
            a["collection"] = self.hidden()
        if self.flip(2):
            a["alt"] = self.text(nl=False)
            if t == "link":
                a["alt"] = self.tok("h")
        n = self.put_attrs({"type": "media"}, a)
        self.opt_marks(n, spec.MEDIA_MARKS)
        if t == "link":
            for m in n.get("marks", ()):  # shown nowhere
                if m["type"] == "link":
                    m["attrs"]["href"] = self.tok("h")
                    if "title" in m["attrs"]:
                        m["attrs"]["title"] = self.tok("h")
        return n

    def n_caption(self):
        n = self.put_attrs({"type": "caption"})
        return self.opt_inlines(n, 0, 2, spec.NODES["caption"].content)

    def n_mediaSingle(self):
        n = self.put_attrs({"type": "mediaSingle"})
        if self.md or not self.flip(8):
            n["content"] = [self.n_media()]
            if self.flip(3):
                n["content"].append(self.n_caption())
        if self.flip(8):
            n["marks"] = [self.mark("link")]
        return n

    def n_mediaGroup(self):
        return {"type": "mediaGroup", "content": [self.n_media() for _ in range(self.int(0, 2))]}

    def n_blockCard(self):
        a = {} if self.is_bad() else {"url": self.url()}
        return self.put_attrs({"type": "blockCard"}, a)

    def n_embedCard(self):
        return self.put_attrs({"type": "embedCard"}, {"url": self.url()})

    def n_extension(self):
        a = {"extensionKey": self.tok("c"), "extensionType": "com." + self.tok("c")}
        if self.wild and self.flip(3):
            a[self.pick(["extensionKey", "extensionType"])] = self.text(nl=False)
        k = self.int(0, 3)
        if k == 1:
            a["text"] = self.text(nl=False)
        elif k == 2:
            a["text"] = ""
        n = self.put_attrs({"type": "extension"}, a)
        self.opt_marks(n, ["dataConsumer", "fragment"], rate=6)
        return n

    def repeat(self, out):
        """Some children occur twice, side by side or apart."""
        if self.dups and out and self.flip(self.dups):
            i = self.int(0, len(out) - 1)
            j = min(len(out), i + self.int(0, 3))
            for k in range(self.int(1, 2)):
                out.insert(self.pick([i, i + 1, j, len(out)]), copy.deepcopy(out[i]))
        return out

    def items(self, make, lo, hi):
        """lo..hi children while there is fuel."""
        out = []
        n = self.int(lo, hi)
        if n == hi and hi > 1 and self.long and self.many(12):
            self.long -= 1
            n = self.int(hi, 13) if not self.flip(3) else self.int(14, 40)
            self.fuel = max(self.fuel, 0) + n // 2
            lo = n
        while len(out) < n and (self.fuel > 0 or len(out) < lo):
            self.fuel -= 1
            out.append(make())
        return self.repeat(out)

    def n_listItem(self, depth):
        n = self.put_attrs({"type": "listItem"})
        nested = ["bulletList", "orderedList", "taskList"]
        flat = ["paragraph", "codeBlock", "mediaSingle", "extension"]
        if self.md:
            content = [self.n_word_paragraph()]
            content += self.items(lambda: self.block(self.pick(flat), depth), 0, 1)
            if self.fuel > 0 and depth > 0 and self.flip(2):
                content += self.items(lambda: self.block(self.pick(nested), depth - 1), 1, 2)
        else:
            content = [] if self.flip(12) else [self.n_paragraph()]
            content += self.items(
                lambda: self.some_block(nested if depth > 0 and self.flip() else flat, depth - 1), 0, 2)
        n["content"] = content
        return n

    def n_bulletList(self, depth):
        return {"type": "bulletList", "content": self.items(lambda: self.n_listItem(depth), 1 if self.md or not self.flip(20) else 0, 3)}

    def n_orderedList(self, depth):
        n = {"type": "orderedList"}
        a = {}
        if self.flip(2):
            a["order"] = self.value("order")
        self.put_attrs(n, a)
        n["content"] = self.items(lambda: self.n_listItem(depth), 1 if self.md or not self.flip(20) else 0, 3)
        return n

    def n_taskItem(self):
        n = self.put_attrs({"type": "taskItem"}, {"state": self.pick(["TODO", "DONE"])})
        return self.opt_inlines(n, 0, 3)

    def n_taskList(self, depth):
        n = self.put_attrs({"type": "taskList"})

        def child():
            if depth > 0 and self.flip(3):
                return self.n_taskList(depth - 1)
            return self.n_taskItem()

        first = [self.n_taskItem()] if self.md or not self.flip(20) else []
        n["content"] = first + self.items(child, 0, 3)
        return n

    def n_decisionItem(self):
        n = self.put_attrs({"type": "decisionItem"})
        return self.opt_inlines(n, 0, 4)

    def n_decisionList(self):
        n = self.put_attrs({"type": "decisionList"})
        n["content"] = self.items(self.n_decisionItem, 1 if self.md or not self.flip(20) else 0, 3)
        return n

    def container(self, t, depth, lo=0, hi=4):
        kinds = spec.NODES[t].content
        return self.items(lambda: self.some_block(kinds, depth - 1), lo, hi)

    def n_blockquote(self, depth):
        n = self.put_attrs({"type": "blockquote"})
        n["content"] = self.container("blockquote", depth)
        return n

    def n_panel(self, depth):
        n = self.put_attrs({"type": "panel"},
                           {"panelType": self.pick(spec.NODES["panel"].attrs["panelType"][1])})
        n["content"] = self.container("panel", depth)
        return n

    def n_expand(self, depth):
        n = self.put_attrs({"type": "expand"})
        n["content"] = self.container("expand", depth)
        return n

    def n_nestedExpand(self, depth):
        n = self.put_attrs({"type": "nestedExpand"})
        n["content"] = self.container("nestedExpand", depth, hi=3)
        return n

    def n_cell(self, t, depth):
        n = self.put_attrs({"type": t})
        if self.flip(8):
            n["content"] = []
        elif depth > 0 and self.flip(3):
            n["content"] = self.container("tableCell", depth, hi=3)
        else:
            n["content"] = self.items(self.n_paragraph, 1, 2)
        return n

    def n_table(self, depth):
        n = self.put_attrs({"type": "table"})
        rows = []
        width = self.int(1, 3)
        if self.long and self.flip(24):
            self.long -= 1
            width = self.int(4, 12) if not self.flip(4) else self.int(13, 40)
        style = self.int(0, 4)  # header row, no header, header column, both, anything
        for r in range(self.int(1 if self.md else 0, 3)):
            row = self.put_attrs({"type": "tableRow"})
            w = width
            if not self.md and self.flip(6):
                w = self.int(0, 4)
            row["content"] = []
            for c in range(w):
                if w > 3:
                    depth = min(depth, 1)
                if style == 0:
                    head = r == 0
                elif style == 1:
                    head = False
                elif style == 2:
                    head = c == 0
                elif style == 3:
                    head = c == 0 or r == 0
                else:
                    head = self.flip()
                self.fuel -= 1
                row["content"].append(self.n_cell("tableHeader" if head else "tableCell", depth - 1))
            rows.append(row)
        n["content"] = self.repeat(rows)
        self.opt_marks(n, ["fragment"], rate=6)
        return n

    DEEP = {"bulletList", "orderedList", "taskList", "blockquote", "panel", "expand", "nestedExpand", "table",
            "listItem"}

    def block(self, t, depth):
        self.fuel -= 1
        if t in self.DEEP:
            return getattr(self, "n_" + t)(max(depth, 0))
        return getattr(self, "n_" + t)()

    def some_block(self, kinds, depth):
        if self.loose and self.flip(self.loose):
            kinds = LOOSE
        return self.block(self.pick(kinds), depth)

    def node(self, t, depth=3):
        """A node of any type."""
        if t == "doc":
            return self.doc(depth)
        if t == "tableRow":
            row = self.put_attrs({"type": "tableRow"})
            row["content"] = self.items(
                lambda: self.n_cell(self.pick(["tableCell", "tableHeader"]), depth - 1), 0, 3)
            return row
        if t in ("tableCell", "tableHeader"):
            return self.n_cell(t, depth)
        return self.block(t, depth)

    def doc(self, depth=4, lo=0, hi=6, kinds=None):
        n = {"type": "doc"}
        if not self.flip(6):
            n["version"] = 1 if not self.flip(6) else self.pick([0, 2, 3, 10])
        kinds = kinds or spec.BLOCKS
        content = []
        size = self.int(lo, hi)
        if size == hi and hi > 3 and self.long and self.many(12):
            self.long -= 1
            lo = size = self.int(hi, 13) if not self.flip(3) else self.int(14, 60)
        for _ in range(size):
            if self.fuel <= 0 and len(content) >= max(lo, 1):
                break
            content.append(self.some_block(["paragraph"] if self.int(0, 3) == 0 else kinds, depth))
        n["content"] = self.repeat(content)
        return n


def docs(**kw):
    """Strategy for whole documents."""
    doc_kw = {k: kw.pop(k) for k in ("depth", "lo", "hi", "kinds") if k in kw}

    @st.composite
    def build(draw):
        return Gen(draw, **kw).doc(**doc_kw)

    return build()


def built(fn, **kw):
    """Strategy for whatever fn(gen) returns."""

    @st.composite
    def build(draw):
        return fn(Gen(draw, **kw))

    return build()
