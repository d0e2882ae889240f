from lib import spec, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("A document or node with arbitrary text and the same with every presentation attribute drawn anew (added, removed, "
        "changed) and marks without Markdown equivalent added, removed, changed or moved at any positions. Non-trivial: "
        "the two differ.")
ASSUMPTIONS = ["lib/spec.py lists which attributes are shown (SHOWN, SHOWN_MARK) and which marks have no Markdown equivalent"]
EXAMPLES = {"quick": 2400, "thorough": 40000}
REQUIRED_CLASSES = ["attribute added", "attribute removed", "attribute changed", "mark added", "mark removed",
                    "attrs removed", "depth>=6"]


def reskin_mark(g, m, log):
    kinds = spec.MARKS[m["type"]]
    if kinds is None:
        return m
    return {"type": m["type"], "attrs": redraw(g, m.get("attrs", {}), kinds, spec.SHOWN_MARK.get(m["type"], ()), log)}


def redraw(g, old, kinds, shown, log):
    out = {k: v for k, v in old.items() if k in shown}
    for k, (req, kind) in kinds.items():
        if k in shown:
            continue
        j = g.int(0, 2)
        if j == 0 and k in old:
            out[k] = old[k]
        elif req or j == 1:
            out[k] = g.value(kind)
            log.add("attribute changed" if k in old else "attribute added")
        elif k in old:
            log.add("attribute removed")
    return out


def reskin_marks(g, ms, kinds, log):
    out = []
    noop = [k for k in kinds if k in spec.NOOP_MARKS]
    for m in ms:
        if noop and g.flip(4):
            out.append(g.mark(g.pick(noop)))
            log.add("mark added")
        if m["type"] in spec.NOOP_MARKS and g.flip(2):
            log.add("mark removed")
            continue
        out.append(reskin_mark(g, m, log))
    if noop and g.flip(3):
        out.append(g.mark(g.pick(noop)))
        log.add("mark added")
    return out


def reskin(g, n, log):
    s = spec.NODES[n["type"]]
    out = dict(n)
    if s.attrs is not None:
        shown = spec.SHOWN.get(n["type"], set())
        new = redraw(g, n.get("attrs", {}), s.attrs, shown, log)
        if new or s.attrs_required or g.flip():
            out["attrs"] = new
        elif "attrs" in out:
            del out["attrs"]
            log.add("attrs removed")
    if "content" in n:
        out["content"] = [reskin(g, c, log) for c in n["content"]]
    if s.marks is not None:
        ms = reskin_marks(g, n.get("marks", []), s.marks, log)
        if ms or g.flip():
            out["marks"] = ms
        else:
            out.pop("marks", None)
    return out


def _case(g):
    a = g.doc() if g.int(0, 2) else g.node(g.pick(list(spec.NODES)))
    log = set()
    b = reskin(g, a, log)
    return {"a": a, "b": b, "log": sorted(log)}


def cases():
    return built(_case, wild=True, loose=14, extras=3)


def check(case, note):
    a, b = case["a"], case["b"]
    same(md(b), md(a), "presentation-only data changes the Markdown")
    same(md(b, ignore_error=True), md(a, ignore_error=True), "presentation-only data changes the lenient Markdown")
    note("root:" + a["type"], *case["log"])
    note(*(x for x in tree.shape(a) if x.startswith("depth")))
    note.nontrivial(tree.canon(a) != tree.canon(b))
