"""What lists look like, from the tree and the renderings of the non-list parts alone."""

from lib.sut import md

LISTS = ("bulletList", "orderedList", "taskList")


def pad(level):
    return "    " * level


def shift(lines, level):
    """Content of an item stands one level deeper; blank lines carry no meaning."""
    return [x if not x.strip(" \t") else pad(level) + x for x in lines]


def lines_of(n, level=0):
    """[(kind, line)]: the expected lines; kind is "item" or "content"."""
    out = []
    if n["type"] == "taskList":
        for c in n["content"]:
            if c["type"] == "taskList":
                out += lines_of(c, level + 1) or [("content", "")]
                continue
            box = "- [x] " if c["attrs"]["state"] == "DONE" else "- [ ] "
            own = "".join(md(x) for x in c.get("content", ())).rstrip().split("\n")
            out.append(("item", pad(level) + box + own[0]))
            out += [("content", x) for x in shift(own[1:], level + 1)]
        return out
    number = n.get("attrs", {}).get("order", 1) if level == 0 else 1
    for item in n["content"]:
        marker = "- " if n["type"] == "bulletList" else "%d. " % number
        number += 1
        own = []
        for c in item["content"]:
            if c["type"] in LISTS:
                own += lines_of(c, level + 1) or [("content", "")]
            else:
                own += [("content", x) for x in shift(md(c).rstrip().split("\n"), level + 1)]
        own = own or [("content", "")]
        # the first line of the content stands behind the marker
        first = own[0][1]
        if first.startswith(pad(level + 1)):
            first = first[len(pad(level + 1)):]
        out.append(("item", pad(level) + marker + first))
        # what follows stands behind the marker, also if that is wider than one level
        wider = " " * max(0, len(marker) - 4)
        out += [(kind, wider + x if x.strip(" \t") else x) for kind, x in own[1:]]
    return out


def loose(line):
    """Trailing whitespace of a line has no meaning in a list."""
    return line.rstrip()
