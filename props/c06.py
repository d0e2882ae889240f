"""Model: each handle is the document it was parsed from; nothing else matters."""
import os

from lib import pool, ref, spec, tree
from lib.gen import built
from lib.sut import Capture, Violation, api, call, outcome, require, same, settings, to_dict

RULE = ("A history of up to 14 operations (parse, render with either error mode, serialise, compare, type-test, "
        "parse something invalid once or a thousand times, mutate an input or an output, toggle the warning setting, attempt to mutate "
        "an object) over 1 to 3 documents, run in a fresh child process; plus the same documents in persistent "
        "processes with other time zone, hash seed, locale, working directory and optimisation level. Every result "
        "is compared with the reference renderer and serialiser. Non-trivial: at least two operations on a parsed "
        "object.")
ASSUMPTIONS = ["lib/ref.py and lib/spec.py give the right result of a single operation (checked by C25 and C01)"]
EXAMPLES = {"quick": 480, "thorough": 12000}
REQUIRED_CLASSES = ["op:parse", "op:render", "op:serialise", "op:mutate input", "op:mutate output", "op:toggle",
                    "op:equal", "op:many", "op:invalid", "op:type", "environment"]

OPS = ["parse", "render", "render", "render lenient", "serialise", "mutate input", "mutate output", "toggle", "equal",
       "type", "invalid", "skip", "render part", "many"]


def _case(g):
    docs = []
    for _ in range(g.int(1, 3)):
        g.fuel = g.int(2, 12)
        docs.append(g.doc(depth=3, hi=4))
    k = g.int(0, 5)
    if len(docs) > 1 and k == 0:
        docs[1] = tree.clone(docs[0])
    elif len(docs) > 1 and k == 1:
        docs[1] = twin(docs[0])
    elif k == 2:                # the same element with equal numbers of other types
        docs[0]["content"] = [numeric(g)] + docs[0]["content"][:1]
        docs[1:] = [twin(docs[0])]
        if g.flip():
            docs.reverse()
    ops = []
    for _ in range(g.int(2, 14)):
        ops.append([g.pick(OPS), g.int(0, 9), g.int(0, 9)])
    return {"docs": docs, "ops": [["parse", 0, 0]] + ops}


def numeric(g):
    """An element with attributes whose values are numbers or truth values."""
    t = g.pick(["mediaSingle", "mediaInline", "embedCard", "table", "mention", "codeBlock", "media", "blockCard"])
    n = g.node(t, 1)
    marks = [{"type": "border", "attrs": {"size": g.pick([0, 1, 2, 1.0, True]), "color": "#000000"}},
             {"type": "breakout", "attrs": {"mode": "wide", "width": g.pick([0, 1, 760, 2.0])}}]
    if t in ("mediaSingle", "mediaInline", "media", "codeBlock"):
        media = n["content"][0] if t == "mediaSingle" and n.get("content") else n
        if spec.NODES[media["type"]].marks is not None:
            media["marks"] = media.get("marks", []) + marks[:1 + g.int(0, 1)]
    return n


def twin(x):
    """The same document with every number that is not rendered replaced by an equal one of another type."""
    if isinstance(x, dict):
        return {k: v if k in ("version", "order", "level", "timestamp") else twin(v) for k, v in x.items()}
    if isinstance(x, list):
        return [twin(v) for v in x]
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return bool(x) if x in (0, 1) else float(x) if abs(x) < 2 ** 53 else x
    if isinstance(x, float) and x == x and x in (0.0, 1.0):
        return int(x)
    return x


def cases():
    return built(_case, wild=True, loose=14, bad=25)


SERVERS = []


def servers():
    if not SERVERS:
        SERVERS.append((os.getpid(), [
            pool.Server({"TZ": "Pacific/Kiritimati", "PYTHONHASHSEED": "1", "LC_ALL": "C"}, "/tmp"),
            pool.Server({"TZ": "America/Los_Angeles", "PYTHONHASHSEED": "77", "PYTHONUTF8": "0"}, "/", ["-O"]),
            pool.Server({"TZ": "Asia/Kathmandu", "PYTHONHASHSEED": "random", "LC_ALL": "C.UTF-8"}, "/usr"),
        ]))
    return SERVERS[0][1]


def expected_md(d, lenient):
    try:
        return "ok", ref.render(ref.prune(d) if lenient else d)
    except ref.RefError:
        return "err", None


def scramble(x, k):
    """Change a JSON structure in place, deeply."""
    if isinstance(x, dict):
        for key in list(x):
            v = x[key]
            if isinstance(v, (dict, list)):
                scramble(v, k + 1)
            elif key == "type" and k % 2:
                x[key] = "rule"
            elif isinstance(v, str):
                x[key] = v + "!"
            elif isinstance(v, (int, float)):
                x[key] = v + 1
        x["zz"] = k
        if k % 3 == 0:
            x.pop("content", None)
    elif isinstance(x, list):
        for v in x:
            scramble(v, k + 1)
        x.reverse()
        x.append({"type": "text", "text": "added"})


def many(k):
    """A thousand small operations that fail or succeed."""
    bad = [{"type": "paragraph", "content": [{"type": "text"}]}, {"type": "zz"}, {"type": "date", "attrs": {"timestamp": "x"}},
           {"type": "text", "text": "a", "marks": [{"type": "link"}]}, {"type": "rule"}][k % 5]
    first = outcome(lambda: api.parse_node(bad).to_markdown())
    for _ in range(1100):
        last = outcome(lambda: api.parse_node(bad).to_markdown())
    require(first[0] == last[0] and (first[1] == last[1] if first[0] == "ok" else type(first[1]) is type(last[1])),
            "after many repetitions: %r, at first %r", last, first)


def history(case):
    docs = case["docs"]
    inputs = [tree.clone(d) for d in docs]
    touched = [False] * len(docs)
    handles = []           # (object, index of the document)
    done = []
    settings.WARN_UNIMPLEMENTED_TYPE = True
    with Capture() as cap:
        for name, a, b in case["ops"]:
            i = a % len(docs)
            if name == "parse":
                if touched[i]:
                    inputs[i], touched[i] = tree.clone(docs[i]), False
                handles.append((call("parse", api.parse_node, inputs[i]), i))
            elif name == "skip":
                n = len(cap.records)
                obj = call("parse", api.parse_node, {"type": "doc", "version": 1, "content": [{"type": "zz"}]})
                require(to_dict(obj) == {"type": "doc", "version": 1, "content": []}, "skipping depends on history")
                require((len(cap.records) > n) == settings.WARN_UNIMPLEMENTED_TYPE, "the warning setting is ignored")
            elif name == "toggle":
                settings.WARN_UNIMPLEMENTED_TYPE = bool(b % 2)
            elif name == "invalid":
                bad = [{"type": "paragraph", "content": [{"type": "text"}]}, {"type": "zz"},
                       {"type": "heading", "content": []}, {"type": "text", "text": "a", "marks": [{"type": "link"}]}]
                got, e = outcome(api.parse_node, bad[b % 4])
                require(got == "err", "an invalid node parses: %r", bad[b % 4])
            elif name == "many":
                many(b)
            elif name == "mutate input":
                scramble(inputs[i], b)
                touched[i] = True
            elif handles:
                obj, i = handles[(a + b) % len(handles)]
                d = docs[i]
                if name in ("render", "render lenient"):
                    lenient = name == "render lenient"
                    got, md = outcome(obj.to_markdown, ignore_error=lenient)
                    want = expected_md(d, lenient)
                    require((got, md if got == "ok" else None) == want,
                            "rendering after %r gives %r, not %r", done, md, want)
                elif name == "render part":
                    parts = [c for c in obj.content]
                    if parts:
                        got, md = outcome(parts[b % len(parts)].to_markdown)
                        want = expected_md(d["content"][b % len(parts)], False)
                        require((got, md if got == "ok" else None) == want,
                                "rendering a part after %r gives %r, not %r", done, md, want)
                elif name == "serialise":
                    require(tree.json_equal(to_dict(obj), spec.project(d)), "serialising after %r gives %r, not %r",
                            done, to_dict(obj), spec.project(d))
                elif name == "mutate output":
                    scramble(to_dict(obj), b)
                    scramble([to_dict(c) for c in obj.content], b)
                elif name == "equal":
                    other, j = handles[b % len(handles)]
                    require((obj == other) == (spec.project(d) == spec.project(docs[j])), "equality after %r", done)
                elif name == "type":
                    require(obj.is_type_of(api.TypeEnum.doc) and not obj.is_type_of(api.TypeEnum.text)
                            and obj.is_type_of([api.TypeEnum.text, api.TypeEnum.doc]) and not obj.is_type_of([]),
                            "type test after %r", done)
            done.append(name)
            for k, d in enumerate(docs):
                if not touched[k]:
                    require(tree.json_equal(inputs[k], d), "%s changed the caller's document %d", name, k)
        # at the end every handle still stands for its document
        for obj, i in handles:
            require(tree.json_equal(to_dict(obj), spec.project(docs[i])), "after %r the object of document %d is %r",
                    done, i, to_dict(obj))
            got, md = outcome(obj.to_markdown)
            require((got, md if got == "ok" else None) == expected_md(docs[i], False),
                    "after %r document %d renders as %r", done, i, md)
    return done


def check(case, note):
    done = pool.forked(lambda: history(case))
    want = []
    for d in case["docs"]:
        w = [spec.project(d)]
        for lenient in (False, True):
            k, md = expected_md(d, lenient)
            w.append([k, md])
        want.append(w)
    for s in servers():
        for d, got, w in zip(case["docs"], s.ask(case["docs"]), want):
            if got[0] == "parse error":
                raise Violation("%s: parsing fails: %r" % (s.name, got))
            require(tree.json_equal(got[0], w[0]), "%s: serialises to %r, not %r", s.name, got[0], w[0])
            for g, x in zip(got[1:3], w[1:3]):
                require(g[0] == x[0] and (g[0] == "err" or g[1] == x[1]), "%s: renders %r, not %r", s.name, g, x)
            require(got[3] == [], "%s: logs %r", s.name, got[3])
        note("environment")
    for x in done:
        note("op:" + x)
    note.nontrivial(len([x for x in done if x not in ("parse", "toggle", "invalid", "skip")]) >= 2)
