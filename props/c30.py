import gc
import signal
import sys
import threading
import time

from lib import ref, spec, tree
from lib.gen import WILD, built
from lib.sut import Violation, api, parse, render, require, to_dict

RULE = ("(a) a chain of nested containers of generated kinds, n and 2n levels deep (n 6 to 20), (b) generated blocks, items, "
        "rows, inline nodes or marks repeated n and 4n times (n 15 to 50): the number of function calls for parsing, "
        "serialising and rendering in both modes may grow by at most 10 and 7 (the parts are equal or all different), and the CPU time for 8000 parts instead of 1000 by at most 24; (c) texts of 20 000 characters, repetitions of "
        "generated pieces, in every text context: each at most 10 s of CPU time. Chains run with Python's default recursion "
        "limit on a fresh stack. Non-trivial: every case.")
ASSUMPTIONS = ["function calls measure the work on structure, CPU time the work on characters; measured on the unchanged tree, "
               "calls grow by 2 to 4 in (a), by 4 in (b), and (c) takes below 1 s"]
EXAMPLES = {"quick": 110, "thorough": 1800}
CHAIN = ["panel", "bulletList", "orderedList", "expand", "nestedExpand", "blockquote", "taskList", "tableCell", "tableHeader"]
REQUIRED_CLASSES = ["depth", "width", "text", "mass", "different parts"] + ["chain of " + k for k in CHAIN] + [
    "wide " + k for k in ("doc", "list", "table", "row", "paragraph", "tasks", "decisions", "panel", "marks", "code")]
FACTOR = {"depth": 10, "width": 7}
SECONDS = 10
MASS = ["doc", "list", "table", "row", "paragraph", "tasks", "decisions", "panel", "code"]
MASS_FACTOR = 24
CONTEXTS = ["paragraph", "heading", "codeBlock", "cell", "header", "item", "task", "decision", "blockquote", "panel", "expand",
            "code", "strong", "em", "strike", "link", "link text", "underline", "caption", "emoji", "language", "rows", "indentation", "mention", "status", "extension", "alt"]


def _case(g):
    k = g.int(0, 9)
    if k < 4:
        kinds = [g.pick(CHAIN) for _ in range(g.int(1, 3))]
        return {"mode": "depth", "kinds": kinds, "n": g.int(6, 20)}
    if k < 7:
        g.fuel, g.long = g.int(2, 8), 0
        what = g.pick(["doc", "list", "table", "row", "paragraph", "tasks", "decisions", "panel", "marks", "code"])
        unit = {"doc": lambda: g.block(g.pick(spec.BLOCKS), 2), "list": lambda: g.node("listItem", 2),
                "table": lambda: g.node("tableRow", 2), "row": lambda: g.node(g.pick(["tableCell", "tableHeader"]), 2),
                "paragraph": lambda: g.node(g.pick(["text", "mention", "hardBreak", "date", "inlineCard"])),
                "tasks": lambda: g.node("taskItem"), "decisions": lambda: g.node("decisionItem"),
                "panel": lambda: g.node("paragraph"), "marks": lambda: g.mark(g.pick(["strong", "em", "link", "underline", "code"])),
                "code": lambda: g.n_text(plain=True)}[what]
        return {"mode": "width", "what": what, "units": [unit() for _ in range(g.int(1, 3))], "n": g.int(15, 50),
                "apart": g.flip()}
    if k == 7 and g.flip():
        what = g.pick(MASS)
        return {"mode": "mass", "what": what, "text": g.text(nl=False), "marks": g.marks(["strong", "em", "underline", "link"], 2)}
    one = g.pick([" ", "`", "\n", "*", "a", "|", "\t", ">", "#", "-", "[", "]", "\\", "&", "~", "\u00a0", "1", "_", "é"])
    piece = one if g.flip() else "".join(g.pick(WILD + ["\n", "\n\n", "a", "\n \n"]) for _ in range(g.int(1, 3)))
    return {"mode": "text", "piece": piece, "before": g.pick(["", "x", "`", "\n"]), "after": g.pick(["x", "", "!", "`", "\n\n\ny"])}


def cases():
    return built(_case, wild=True, extras=2)


def chain(kinds, n):
    x = {"type": "paragraph", "content": [{"type": "text", "text": "w"}]}
    for i in range(n):
        k = kinds[i % len(kinds)]
        if k in ("bulletList", "orderedList"):
            x = {"type": k, "content": [{"type": "listItem", "content": [x]}]}
        elif k == "taskList":
            inner = [x] if x["type"] == "taskList" else []
            x = {"type": k, "attrs": {"localId": ""}, "content": [
                {"type": "taskItem", "attrs": {"localId": "", "state": "DONE"}, "content": [{"type": "text", "text": "t"}]}] + inner}
        elif k in ("tableCell", "tableHeader"):
            x = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": k, "content": [x]}]}]}
        elif k == "panel":
            x = {"type": k, "attrs": {"panelType": "info"}, "content": [x]}
        else:
            x = {"type": k, "attrs": {}, "content": [x]}
            if k == "blockquote":
                del x["attrs"]
    return {"type": "doc", "version": 1, "content": [x]}


def numbered(x, n):
    """The same with a number in every text, so that no two parts are equal."""
    if isinstance(x, dict):
        return {k: "%s%d" % (v, n) if k == "text" and isinstance(v, str) else numbered(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [numbered(v, n) for v in x]
    return x


def wide(what, units, n, apart=False):
    many = [numbered(u, i) if apart else tree.clone(u) for i in range(n) for u in units]
    if what == "doc":
        return {"type": "doc", "version": 1, "content": many}
    if what == "marks":
        x = {"type": "paragraph", "content": [{"type": "text", "text": "w", "marks": many}]}
    elif what == "row":
        x = {"type": "table", "content": [{"type": "tableRow", "content": many}]}
    else:
        x = {"type": {"list": "bulletList", "tasks": "taskList", "decisions": "decisionList", "code": "codeBlock"}.get(what, what),
             "attrs": {"localId": "", "panelType": "info"}, "content": many}
        if what == "list":
            del x["attrs"]
    return {"type": "doc", "version": 1, "content": [x]}


def work(d):
    obj = api.NodeDoc.from_dict(d)
    obj.to_dict()
    obj.to_markdown()
    obj.to_markdown(ignore_error=True)
    if obj != api.NodeDoc.from_dict(d):
        raise Violation("two parses are unequal")


def calls(d):
    """Number of function calls, on a fresh stack with the default recursion limit."""
    count = [0]
    result = []

    def profile(frame, event, arg):
        if event in ("call", "c_call"):
            count[0] += 1
            if count[0] > 50000000:
                raise Violation("more than 50 million function calls")

    def body():
        sys.setprofile(profile)
        try:
            work(d)
        except BaseException as e:
            result.append(e)
        finally:
            sys.setprofile(None)

    old = sys.getrecursionlimit()
    t = threading.Thread(target=body)
    sys.setrecursionlimit(1000)
    try:
        t.start()
        t.join()
    finally:
        sys.setrecursionlimit(old)
    if result:
        e = result[0]
        raise Violation("%s: %s" % (type(e).__name__, str(e)[:300]))
    return count[0]


class TooLong(BaseException):
    pass


def in_time(fn):
    """Whether fn() returns before SECONDS of CPU time are used."""
    def stop(signum, frame):
        raise TooLong()

    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS)
    try:
        fn()
        return True
    except TooLong:
        return False
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def in_context(c, text):
    t = {"type": "text", "text": text}
    if c in ("code", "strong", "em", "strike", "underline"):
        t["marks"] = [{"type": c}]
    elif c == "link":
        t["marks"] = [{"type": "link", "attrs": {"href": text}}]
    elif c == "link text":
        t["marks"] = [{"type": "link", "attrs": {"href": "u"}}]
    elif c == "indentation":
        t["marks"] = [{"type": "indentation", "attrs": {"level": 2}}]
    p = {"type": "paragraph", "content": [t]}
    ids = {"localId": "", "state": "DONE"}
    if c in ("heading",):
        return {"type": c, "attrs": {"level": 2}, "content": [t]}
    if c == "codeBlock":
        return {"type": c, "content": [t]}
    if c in ("cell", "header"):
        return {"type": "table", "content": [{"type": "tableRow", "content": [
            {"type": "tableCell" if c == "cell" else "tableHeader", "content": [p]}]}]}
    if c == "item":
        return {"type": "bulletList", "content": [{"type": "listItem", "content": [p, {"type": "codeBlock", "content": [t]}]}]}
    if c == "task":
        return {"type": "taskList", "attrs": ids, "content": [{"type": "taskItem", "attrs": ids, "content": [t]}]}
    if c == "decision":
        return {"type": "decisionList", "attrs": ids, "content": [{"type": "decisionItem", "attrs": ids, "content": [t]}]}
    if c in ("blockquote", "expand"):
        return {"type": c, "content": [p]}
    if c == "panel":
        return {"type": c, "attrs": {"panelType": "info"}, "content": [p]}
    if c == "mention":
        return {"type": "paragraph", "content": [{"type": "mention", "attrs": {"id": "1", "text": text}}]}
    if c == "emoji":
        return {"type": "paragraph", "content": [{"type": c, "attrs": {"shortName": text}}]}
    if c == "caption":
        return {"type": "mediaSingle", "content": [{"type": c, "content": [t]}]}
    if c == "language":
        return {"type": "codeBlock", "attrs": {c: text}, "content": [{"type": "text", "text": "w"}]}
    if c == "rows":
        return {"type": "table", "content": [{"type": "tableRow", "content": [
            {"type": "tableHeader", "content": [{"type": "bulletList", "content": [{"type": "listItem", "content": [p]}]}]}]}] * 2}
    if c == "status":
        return {"type": "paragraph", "content": [{"type": "status", "attrs": {"text": text, "color": "red"}}]}
    if c == "extension":
        return {"type": c, "attrs": {"extensionKey": "k", "extensionType": "t", "text": text}}
    if c == "alt":
        return {"type": "mediaSingle", "content": [{"type": "media", "attrs": {"type": "file", "id": "i", "alt": text}}]}
    return p


def complete(d, what):
    """Nothing is cut off or merged: the same results as by the reference."""
    obj = parse(d)
    require(tree.json_equal(to_dict(obj), spec.project(d)), "%s: the serialisation differs from the document", what)
    got, want = render(obj), ref.render(d)
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Violation("%s: %d characters instead of %d; at %d %r instead of %r" % (
            what, len(got), len(want), i, got[max(0, i - 40):i + 40], want[max(0, i - 40):i + 40]))


def mass_unit(what, text):
    t = {"type": "text", "text": text}
    p = {"type": "paragraph", "content": [t]}
    if what in ("paragraph", "code"):
        return t
    if what == "list":
        return {"type": "listItem", "content": [p]}
    if what == "row":
        return {"type": "tableCell", "content": [p]}
    if what == "table":
        return {"type": "tableRow", "content": [{"type": "tableHeader", "content": [p]}]}
    if what in ("tasks", "decisions"):
        return {"type": what[:-1] + "Item", "attrs": {"localId": "", "state": "DONE"}, "content": [t]}
    return p


def check_mass(case, note):
    what, times = case["what"], []
    note("mass of a " + what)
    for n in (1000, 8000):
        d = wide(what, [numbered(mass_unit(what, case["text"] + " "), i) for i in range(n)], 1)
        if what == "paragraph":
            for t in d["content"][0]["content"]:
                t["marks"] = case["marks"]
        times.append(least([seconds(d) for _ in range(3 if n == 1000 else 1)]))
        if n == 1000:
            complete(d, "%d different parts of a %s" % (n, what))
    def slow():
        return [i for i in range(3) if times[1][i] > MASS_FACTOR * times[0][i] and times[1][i] > 0.15]
    if slow():
        times[1] = least([times[1], seconds(d), seconds(d)])
        for i in slow():
            require(False, "%s: 1000 parts of a %s take %.4f s, 8000 take %.4f s", PHASES[i], what, times[0][i], times[1][i])


PHASES = ("parsing", "serialising", "rendering")


def least(runs):
    return [min(r[i] for r in runs) for i in range(3)]


def seconds(d):
    """CPU time of each of the usual operations."""
    gc.collect()
    gc.disable()
    try:
        start = time.thread_time()
        obj = api.NodeDoc.from_dict(d)
        parsed = time.thread_time()
        obj.to_dict()
        written = time.thread_time()
        obj.to_markdown()
        return parsed - start, written - parsed, time.thread_time() - written
    finally:
        gc.enable()


def check(case, note):
    mode = case["mode"]
    note(mode)
    note.nontrivial()
    if mode == "text":
        body = case["piece"]
        text = case["before"] + (body * (20000 // len(body))) + case["after"]
        for c in CONTEXTS:
            d = {"type": "doc", "version": 1, "content": [
                in_context(c, text.replace("\n", " ") if c == "code" else text)]}
            require(in_time(lambda: api.NodeDoc.from_dict(d).to_markdown()),
                    "more than %d s for 20000 characters %r... in a %s", SECONDS, case["piece"], c)
            complete(d, "20000 characters %r... in a %s" % (case["piece"], c))
        return
    if mode == "mass":
        return check_mass(case, note)
    n = case["n"]
    if mode == "depth":
        note(*["chain of " + k for k in case["kinds"]])
        small, large = chain(case["kinds"], n), chain(case["kinds"], 2 * n)
        what = "%d and %d levels of %s" % (n, 2 * n, ", ".join(case["kinds"]))
    else:
        note("wide " + case["what"])
        units, apart = case["units"], case["apart"]
        if apart:
            note("different parts")
        small, large = wide(case["what"], units, n, apart), wide(case["what"], units, 4 * n, apart)
        what = "%d and %d times %d parts of a %s" % (n, 4 * n, len(units), case["what"])
    a = calls(small)
    b = calls(large)
    for d in (small, large):
        complete(d, what)
    require(b <= FACTOR[mode] * a, "%s: %d and %d function calls", what, a, b)
