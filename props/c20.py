import datetime
import os
import time

from lib import spec, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("A leaf node with every combination of present, absent and empty attributes and arbitrary values, rendered in one "
        "of several local time zones; the expected text is written out per type from its documentation. Every other "
        "attribute is then dropped or altered and must not matter. Non-trivial: every case.")
ASSUMPTIONS = ["the calendar is Python's proleptic Gregorian calendar (ordinal arithmetic, no time zone involved)"]
EXAMPLES = {"quick": 9000, "thorough": 80000}
REQUIRED_CLASSES = ["date", "mention", "emoji", "status", "inlineCard", "blockCard", "embedCard", "media", "extension",
                    "mediaSingle", "hardBreak", "mention without text", "emoji without text", "date before 1970", "media external",
                    "media file", "media link", "media without alt", "linked media", "extension with text",
                    "extension with empty text", "day boundary", "empty text"]

TYPES = ["date", "date", "date", "mention", "emoji", "status", "inlineCard", "blockCard", "embedCard", "media", "media",
         "mediaSingle", "extension", "hardBreak"]
ZONES = ["UTC", "Pacific/Kiritimati", "America/Los_Angeles", "Asia/Kathmandu", "Europe/London", "XYZ-13:30", "ABC+11"]


def _case(g):
    t = g.pick(TYPES)
    n = g.node(t)
    if t == "mention" and g.flip(5):
        n["attrs"]["text"] = ""
    if t in ("emoji", "status") and g.flip(5):
        n["attrs"]["text"] = ""
    if t == "media" and n["attrs"].get("alt") is not None and g.flip(5):
        n["attrs"]["alt"] = ""
    other = tree.clone(n)
    shown = spec.SHOWN.get(t, set())
    if "attrs" in other:
        new = g.attrs(t)
        other["attrs"] = {k: v for k, v in other["attrs"].items() if k in shown}
        for k, v in new.items():
            if k not in shown:
                other["attrs"][k] = v
    return {"a": n, "b": other, "tz": g.pick(ZONES)}


def cases():
    return built(_case, wild=True, extras=2)


def day_of(ms):
    # 719163 is the ordinal of 1970-01-01
    return datetime.date.fromordinal(719163 + int(ms) // 86400000).isoformat()


def want(n, note):
    t, a = n["type"], n.get("attrs", {})
    if t == "date":
        ms = int(a["timestamp"])
        if ms < 0:
            note("date before 1970")
        if ms % 86400000 in (0, 1, 86399999):
            note("day boundary")
        return day_of(ms)
    if t == "mention":
        if "text" not in a:
            note("mention without text")
            return "@Unknown"
        return a["text"]
    if t == "emoji":
        if "text" not in a:
            note("emoji without text")
            return a["shortName"]
        return a["text"]
    if t == "status":
        return "`" + a["text"] + "`"
    if t == "inlineCard":
        return "[" + a["url"] + "](" + a["url"] + ")"
    if t in ("blockCard", "embedCard"):
        return "\n[" + a["url"] + "](" + a["url"] + ")\n"
    if t == "hardBreak":
        return "  \n"
    if t == "extension":
        if "text" in a and a["text"]:
            note("extension with text")
            return "[Extension: " + a["extensionKey"] + "] " + a["text"]
        if "text" in a:
            note("extension with empty text")
        return "[Extension: " + a["extensionType"] + "/" + a["extensionKey"] + "]"
    if t == "media":
        note("media " + a["type"])
        if a["type"] == "link":
            return "[media]"
        if "alt" not in a:
            note("media without alt")
        out = "![%s](%s)" % (a.get("alt", "media"), a["url"] if a["type"] == "external" else "media:" + a["id"])
        for m in n.get("marks", ()):
            if m["type"] == "link":
                note("linked media")
                title = m["attrs"].get("title", "")
                out = "[%s](%s)" % (title if title.strip() else out, m["attrs"]["href"])
        return out
    if t == "mediaSingle":
        return "".join(want(c, note) for c in n.get("content", ()) if c["type"] == "media")
    raise AssertionError(t)


def check(case, note):
    n = case["a"]
    note(n["type"], "zone " + case["tz"])
    if "" in (n.get("attrs", {}).get("text"), n.get("attrs", {}).get("alt")):
        note("empty text")
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["tz"]
    time.tzset()
    try:
        got, got_b = md(n), md(case["b"])
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    same(got, want(n, note), "rendering of %r (zone %s)" % (n, case["tz"]))
    same(got_b, got, "attributes that are not shown change a %s" % n["type"])
    note.nontrivial()
