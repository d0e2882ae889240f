"""What the documentation says about the ADF types, written down independently
of the code: which fields each type has, which are required, what may be nested
in what, and which attributes are shown in Markdown.

Sources: docs/source/02-Maintainer-Guide, scripts/crawl_atlas_doc_reference,
scripts/s01-adf-json-schema-analysis, and the field documentation of each class.
"""

LAYOUT = ["wide", "full-width", "center", "wrap-right", "wrap-left", "align-end", "align-start"]

# value kinds: "str", "url", "int", "num", "bool", "any", "obj", "ints", "strs", "ms",
# or a list of allowed values.  A "*" in front of the name marks a required field.


def _fields(**kw):
    return {k: v for k, v in kw.items()}


def _attrs(text, **kinds):
    """_attrs("*a b c", a=..., ...) -> {"a": (True, kind), ...}"""
    out = {}
    for name in text.split():
        req = name.startswith("*")
        name = name.lstrip("*")
        out[name] = (req, kinds.get(name, "str"))
    return out


MARKS = {
    "alignment": _attrs("*align", align=["center", "end"]),
    "annotation": _attrs("*id *annotationType", annotationType=["inlineComment"]),
    "backgroundColor": _attrs("*color"),
    "border": _attrs("*size *color", size="int"),
    "breakout": _attrs("*mode width", mode=["wide", "full-width"], width="int"),
    "code": None,
    "dataConsumer": _attrs("*sources", sources="strs"),
    "em": None,
    "fragment": _attrs("*localId name"),
    "indentation": _attrs("*level", level=[1, 2, 3, 4, 5, 6]),
    "link": _attrs("*href title id collection occurrenceKey", href="url"),
    "strike": None,
    "strong": None,
    "subsup": _attrs("*type", type=["sub", "sup"]),
    "textColor": _attrs("*color"),
    "underline": None,
}

TEXT_MARKS = ["link", "em", "strong", "strike", "subsup", "underline", "textColor",
              "annotation", "backgroundColor", "code"]
NOOP_MARKS = ["alignment", "annotation", "backgroundColor", "border", "breakout", "dataConsumer",
              "fragment", "subsup", "textColor", "underline"]
BLOCK_MARKS = ["alignment", "indentation"]
MEDIA_MARKS = ["link", "annotation", "border"]

INLINE = ["text", "date", "emoji", "hardBreak", "inlineCard", "mention", "status", "mediaInline"]


class Node:
    def __init__(self, attrs=None, attrs_required=False, content=None, content_required=False,
                 marks=None, fields=()):
        self.attrs = attrs                      # None: the type has no attrs field
        self.attrs_required = attrs_required
        self.content = content                  # None: the type has no content field
        self.content_required = content_required
        self.marks = marks                      # None: the type has no marks field
        self.fields = dict(fields)              # other fields: name -> (required, kind)

    def known(self):
        out = {"type"} | set(self.fields)
        if self.attrs is not None:
            out.add("attrs")
        if self.content is not None:
            out.add("content")
        if self.marks is not None:
            out.add("marks")
        return out


_ID = _attrs("localId")

NODES = {
    "doc": Node(content=["blockCard", "codeBlock", "mediaSingle", "paragraph", "taskList", "orderedList",
                         "bulletList", "blockquote", "decisionList", "embedCard", "extension", "heading",
                         "mediaGroup", "rule", "panel", "table", "expand"],
                content_required=True, fields={"version": (False, [1])}),
    "text": Node(marks=TEXT_MARKS, fields={"text": (True, "str")}),
    "hardBreak": Node(attrs=_attrs("text localId")),
    "mention": Node(attrs=_attrs("*id localId text accessLevel userType",
                                 userType=["DEFAULT", "SPECIAL", "APP"],
                                 accessLevel=["NONE", "SITE", "APPLICATION", "CONTAINER", ""]),
                    attrs_required=True),
    "emoji": Node(attrs=_attrs("*shortName id text localId"), attrs_required=True),
    "date": Node(attrs=_attrs("*timestamp localId", timestamp="ms"), attrs_required=True),
    "status": Node(attrs=_attrs("*text *color localId style",
                                color=["neutral", "purple", "blue", "red", "yellow", "green"]),
                   attrs_required=True),
    "inlineCard": Node(attrs=_attrs("url data localId", url="url", data="any"), attrs_required=True),
    "blockCard": Node(attrs=_attrs("url localId datasource width layout data", url="url",
                                   datasource="datasource", width="num", layout=LAYOUT, data="obj"),
                      attrs_required=True),
    "embedCard": Node(attrs=_attrs("*url *layout width originalHeight originalWidth localId", url="url",
                                   layout=LAYOUT, width="num", originalHeight="num", originalWidth="num"),
                      attrs_required=True),
    "media": Node(attrs=_attrs("*type id collection url localId alt width height occurrenceKey",
                               type=["file", "link", "external"], url="url", width="int", height="int"),
                  attrs_required=True, marks=MEDIA_MARKS),
    "mediaSingle": Node(attrs=_attrs("layout width widthType localId", layout=LAYOUT, width="num",
                                     widthType=["percentage", "pixel"]),
                        content=["media", "caption"], marks=["link"]),
    "mediaGroup": Node(content=["media"], content_required=True),
    "mediaInline": Node(attrs=_attrs("*id *collection type localId alt occurrenceKey width height data",
                                     type=["link", "file", "image"], width="int", height="int", data="any"),
                        attrs_required=True, marks=MEDIA_MARKS),
    "caption": Node(attrs=_ID, content=["hardBreak", "mention", "emoji", "date", "inlineCard", "status", "text"]),
    "extension": Node(attrs=_attrs("*extensionKey *extensionType parameters text layout localId",
                                   parameters="any", layout=["wide", "full-width", "default"]),
                      attrs_required=True, marks=["dataConsumer", "fragment"]),
    "rule": Node(attrs=_ID),
    "codeBlock": Node(attrs=_attrs("language uniqueId localId", language="lang"), content=["text"]),
    "bulletList": Node(content=["listItem"], content_required=True),
    "orderedList": Node(attrs=_attrs("order localId", order="order"), content=["listItem"], content_required=True),
    "listItem": Node(attrs=_ID, content=["paragraph", "codeBlock", "bulletList", "orderedList", "taskList",
                                         "mediaSingle", "extension"], content_required=True),
    "paragraph": Node(attrs=_ID, content=INLINE, marks=BLOCK_MARKS),
    "heading": Node(attrs=_attrs("*level localId", level=[1, 2, 3, 4, 5, 6]), attrs_required=True,
                    content=INLINE, marks=BLOCK_MARKS),
    "taskList": Node(attrs=_attrs("*localId"), attrs_required=True, content=["taskItem", "taskList"],
                     content_required=True),
    "taskItem": Node(attrs=_attrs("*localId *state", state=["TODO", "DONE"]), attrs_required=True, content=INLINE),
    "decisionList": Node(attrs=_attrs("*localId"), attrs_required=True, content=["decisionItem"],
                         content_required=True),
    "decisionItem": Node(attrs=_attrs("*localId *state", state=["DECIDED", ""]), attrs_required=True, content=INLINE),
    "blockquote": Node(attrs=_ID, content=["paragraph", "orderedList", "bulletList", "codeBlock", "mediaSingle",
                                           "mediaGroup", "extension"], content_required=True),
    "panel": Node(attrs=_attrs("*panelType panelIcon panelIconId panelIconText panelColor localId",
                               panelType=["info", "note", "tip", "warning", "error", "success", "custom"]),
                  attrs_required=True,
                  content=["paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaGroup",
                           "mediaSingle", "codeBlock", "taskList", "rule", "decisionList", "extension"],
                  content_required=True),
    "expand": Node(attrs=_attrs("title localId"),
                   content=["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading",
                            "codeBlock", "mediaGroup", "mediaSingle", "decisionList", "taskList", "table",
                            "blockCard", "embedCard", "extension", "nestedExpand"], content_required=True),
    "nestedExpand": Node(attrs=_attrs("title localId"), attrs_required=True,
                         content=["paragraph", "heading", "mediaSingle", "mediaGroup", "codeBlock", "bulletList",
                                  "orderedList", "taskList", "decisionList", "rule", "panel", "blockquote",
                                  "extension"], content_required=True),
    "table": Node(attrs=_attrs("displayMode isNumberColumnEnabled layout localId width",
                               displayMode=["default", "fixed"], isNumberColumnEnabled="bool",
                               layout=["wide", "full-width", "center", "align-end", "align-start", "default"],
                               width="num"),
                  content=["tableRow"], content_required=True, marks=["fragment"]),
    "tableRow": Node(attrs=_ID, content=["tableCell", "tableHeader"], content_required=True),
    "tableCell": Node(attrs=_attrs("colspan rowspan colwidth background localId", colspan="int", rowspan="int",
                                   colwidth="ints"),
                      content=["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading",
                               "codeBlock", "mediaSingle", "mediaGroup", "decisionList", "taskList", "blockCard",
                               "embedCard", "extension", "nestedExpand"], content_required=True),
}
NODES["tableHeader"] = Node(attrs=NODES["tableCell"].attrs, content=NODES["tableCell"].content,
                            content_required=True)

# attributes that the Markdown shows (everything else is presentation only)
SHOWN = {
    "mention": {"text"},
    "emoji": {"text", "shortName"},
    "date": {"timestamp"},
    "status": {"text"},
    "inlineCard": {"url"},
    "blockCard": {"url"},
    "embedCard": {"url"},
    "media": {"type", "id", "url", "alt"},
    "extension": {"extensionKey", "extensionType", "text"},
    "heading": {"level"},
    "orderedList": {"order"},
    "taskItem": {"state"},
    "panel": {"panelType"},
    "codeBlock": {"language"},
}
SHOWN_MARK = {"link": {"href", "title"}, "indentation": {"level"}}

# in the ADF schema, but not implemented by the library (release notes, TypeEnum)
UNIMPLEMENTED_NODES = ["bodiedExtension", "inlineExtension", "placeholder", "layoutSection", "layoutColumn",
                       "syncBlock", "bodiedSyncBlock", "blockTaskItem"]

BLOCKS = [t for t in NODES["doc"].content]
LEAVES = ["text", "hardBreak", "mention", "emoji", "date", "status", "inlineCard", "blockCard", "embedCard",
          "media", "mediaInline", "extension", "rule"]


def node_attrs(type_):
    return NODES[type_].attrs


def project_mark(m):
    """The documented part of a mark."""
    out = {"type": m["type"]}
    spec = MARKS[m["type"]]
    if spec is not None and "attrs" in m:
        out["attrs"] = {k: v for k, v in m["attrs"].items() if k in spec}
    return out


def project(n):
    """The documented part of a node: what a parse/serialise round trip returns."""
    spec = NODES[n["type"]]
    out = {"type": n["type"]}
    for f in spec.fields:
        if f in n:
            out[f] = n[f]
    if n["type"] == "doc":
        out.setdefault("version", 1)
    if spec.attrs is not None and "attrs" in n:
        out["attrs"] = {k: v for k, v in n["attrs"].items() if k in spec.attrs}
    if spec.content is not None and "content" in n:
        out["content"] = [project(c) for c in n["content"] if c["type"] in NODES]
    if spec.marks is not None and "marks" in n:
        out["marks"] = [project_mark(m) for m in n["marks"] if m["type"] in MARKS]
    return out


def walk(n, path=()):
    """All nodes, pre-order, with their path ((key, index), ...)."""
    yield path, n
    for i, c in enumerate(n.get("content", ())):
        yield from walk(c, path + (i,))


def at(n, path):
    for i in path:
        n = n["content"][i]
    return n


def marks_of(n):
    return n.get("marks", [])
