from lib import spec, tree
from lib.gen import built
from lib.sut import Capture, api, call, require, same, settings, to_dict

RULE = ("A document or node and the same with elements of unimplemented types (known to ADF or unknown, with "
        "arbitrary nested content) inserted at any positions of any child and mark lists, parsed under both values "
        "of the warning setting and its value in a fresh process, which is on. Non-trivial: at least one element inserted.")
ASSUMPTIONS = ["the unimplemented types are those that lib/spec.py does not list",
               "a warning names a type when its message contains the type string"]
EXAMPLES = {"quick": 1950, "thorough": 32000}
REQUIRED_CLASSES = ["node skipped", "mark skipped", "warnings on", "warnings off", "default setting", "several in one list", "depth>=6"]

NODE_TYPES = spec.UNIMPLEMENTED_NODES + ["strong", "link", "Paragraph", "paragraph ", "TEXT", "listitem", "heading1",
                                         "blockCard2", "zz-future", "", "node", "unknown", "None", "50%", "%s", "%d%%", "{}", "{0}", "{type}", "a\nb", "a'b", "é\u2028"]
MARK_TYPES = ["paragraph", "text", "Strong", "strong ", "bold", "zz-mark", "", "confluenceInlineComment", "typeAheadQuery",
              "unsupportedMark", "mark", "superscript", "italic", "%", "%(x)s", "100%d", "{", "{0.x}", "\\", "\n"]


def alien(g, kind):
    a = {"type": g.pick(NODE_TYPES if kind == "node" else MARK_TYPES)}
    if g.flip(3):
        a["attrs"] = g.pick([{}, {"localId": ""}, {"a": None}, {"extensionKey": "k"}])
    if g.flip(2):
        a["content"] = g.pick([[], [{"type": "paragraph"}], [{"type": "zz-inner"}, {"type": "text", "text": "t"}],
                               [{"type": "text"}], "text", [None]])
    if g.flip(4):
        a["marks"] = g.pick([[], [{"type": "strong"}], [{"type": "zz-inner-mark"}], [{}]])
    return a


def infest(g, items, kind, log, rate):
    """Insert aliens; returns (with, without)."""
    out, n = [], 0
    for x in items + [None]:
        while g.flip(rate):
            a = alien(g, kind)
            out.append(a)
            log.append((kind, a["type"]))
            n += 1
        if x is not None:
            out.append(x)
    if n > 1:
        log.append(("several", ""))
    return out


def spread(g, n, log, rate):
    out = dict(n)
    if "content" in n:
        out["content"] = infest(g, [spread(g, c, log, rate) for c in n["content"]], "node", log, rate)
    if "marks" in n:
        out["marks"] = infest(g, n["marks"], "mark", log, rate)
    return out


def _case(g):
    d = g.doc() if g.int(0, 3) else g.node(g.pick(["paragraph", "listItem", "tableCell", "expand", "heading", "text",
                                                  "caption", "taskItem", "codeBlock", "table", "mediaSingle"]))
    log = []
    e = spread(g, d, log, g.pick([4, 8, 20]))
    return {"clean": d, "dirty": e, "warn": g.pick([True, None, False]), "skipped": [x for x in log if x[0] != "several"],
            "several": ("several", "") in log}


def cases():
    return built(_case, wild=True, loose=14, bad=10)


DEFAULT = settings.WARN_UNIMPLEMENTED_TYPE  # the value in a fresh process


def observe(d, warn):
    old = settings.WARN_UNIMPLEMENTED_TYPE
    settings.WARN_UNIMPLEMENTED_TYPE = DEFAULT if warn is None else warn
    try:
        with Capture() as cap:
            obj = call("parsing", api.parse_node, d)
            cls = call("parsing by class", getattr(api, tree.class_name(d["type"])).from_dict, d)
            require(cls == obj, "parse_node and from_dict differ")
            n = len(cap.records)
            out = to_dict(obj)
            md = [_md(obj, f) for f in (False, True)]
            require(len(cap.records) == n, "serialising or rendering logs %r", cap.records[n:])
    finally:
        settings.WARN_UNIMPLEMENTED_TYPE = old
    require(n % 2 == 0, "two parses of the same document log a different number of warnings")
    same(cap.records[n // 2:], cap.records[:n // 2], "two parses of the same document log different warnings")
    return obj, out, md, cap.records[:n // 2]


def _md(obj, flag):
    try:
        return "ok", obj.to_markdown(ignore_error=flag)
    except Exception as e:
        return "err", type(e).__name__, str(e)


def check(case, note):
    a = observe(case["clean"], case["warn"])
    b = observe(case["dirty"], case["warn"])
    same(b[1], a[1], "skipping unimplemented types does not give the document without them")
    require(a[0] == b[0], "skipping unimplemented types gives an unequal object")
    same(b[2], a[2], "skipping unimplemented types changes the Markdown")
    same(a[3], [], "warnings for a document without unimplemented types")
    skipped = [t for _, t in case["skipped"]]
    if case["warn"] is False:
        same(b[3], [], "warnings although the setting is off")
    else:
        require(len(b[3]) == len(skipped), "%d elements skipped (%r) but %d warnings: %r", len(skipped), skipped,
                len(b[3]), b[3])
        for r in b[3]:
            require(r[1] == "WARNING", "logged at level %s: %r", r[1], r)
            require(r[0].split(".")[0] == "atlas_doc_parser", "logged on %s", r[0])
        for t in set(skipped):
            hits = sum(t in r[2] for r in b[3])
            require(hits >= skipped.count(t), "%d elements of type %r skipped, %d warnings name it: %r",
                    skipped.count(t), t, hits, b[3])
    for k, _ in case["skipped"]:
        note(k + " skipped")
    if case["several"]:
        note("several in one list")
    note({True: "warnings on", False: "warnings off", None: "default setting"}[case["warn"]], *tree.shape(case["clean"]))
    note.nontrivial(bool(skipped))
