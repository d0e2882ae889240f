From 22d92afde3dc8757f9a1a4def6285c8b541fe8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/30] fix: keep the text when rendering an indentation mark

MarkIndentation.to_markdown() returned only the tabs, so the text of every
indented paragraph was lost.
---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 70c0bfe2d8297c27db5f072ee955abc8fa32742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/30] fix: render an orderedList that has no attrs

attrs is optional, but to_markdown() read attrs.order unconditionally and
raised AttributeError.
---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..d96d565 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From 6cfb7aa94ed19d8c5cb0eddde083cb3f85d34991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 03/30] fix: render a taskItem that has no content

taskItem.content is optional, but taskList.to_markdown() iterated over it
unconditionally and raised TypeError.
---
 atlas_doc_parser/nodes/node_task_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..b515f1c 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -89,7 +89,8 @@ class NodeTaskList(BaseNode):
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
                 content_parts = []
-                for node in item.content:
+                item_nodes = [] if item.content is OPT else item.content
+                for node in item_nodes:
                     try:
                         md = node.to_markdown()
                         content_parts.append(md)
-- 
2.43.0


From 3a176928a749f8584e7115edfda4df950a935e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 04/30] fix: render a table that contains an empty row

row.content[0] raised IndexError for a tableRow without cells.
---
 atlas_doc_parser/nodes/node_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..0c4e95e 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -78,7 +78,7 @@ class NodeTable(BaseNode):
             try:
                 md = row.to_markdown()
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From 725efae1615d614af787d12f5599e0f7d24724d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 05/30] fix: pass ignore_error down to nested to_markdown()
 calls

The flag is documented to be propagated recursively. It was dropped at every
level, so one inline node that cannot be converted removed the whole
enclosing paragraph, list item, cell or panel from the output.
---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index d96d565..f4c6576 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -102,7 +102,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -112,7 +115,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 0c4e95e..94f8e29 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index b515f1c..0161946 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -92,7 +92,7 @@ class NodeTaskList(BaseNode):
                 item_nodes = [] if item.content is OPT else item.content
                 for node in item_nodes:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From e3705bdafb9903bc39b6dcb5e8a745ac73d9b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 06/30] fix: drop unset optional fields of nested dataclasses
 in to_dict()

to_dict() removed the OPT sentinel at the top level only, so the dict of a
mark with an unset optional attribute (every link without a title) contained
the sentinel and could not be JSON encoded.
---
 atlas_doc_parser/mark_or_node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..b81605b 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -56,7 +56,12 @@ class Base(BaseFrozenModel):
         """
         Convert the dataclass to a complete dictionary with all fields.
         """
-        return remove_optional(**dataclasses.asdict(self))
+        return dataclasses.asdict(
+            self,
+            # also applied to nested dataclasses, so that unset optional fields
+            # never show up at any depth
+            dict_factory=lambda items: remove_optional(**dict(items)),
+        )
 
     def to_kwargs(self) -> T_DATA:
         """
-- 
2.43.0


From a651e601dfb6036a6ec15d24dc32109cd186fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 07/30] fix: indent a nested list of another kind

A bullet list inside an ordered list item (or the reverse, or a task list)
was rendered at level 0, so it became a sibling of the item that owns it.
---
 atlas_doc_parser/nodes/node_bullet_list.py  | 8 +++++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..7dfc11b 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -73,7 +73,13 @@ class NodeBulletList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.bulletList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index f4c6576..3a3c93c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -99,7 +99,13 @@ class NodeOrderedList(BaseNode):
                 # Process the list item content
                 content_lines = []
                 for node in item.content:
-                    if node.is_type_of(TypeEnum.orderedList):
+                    if node.is_type_of(
+                        [
+                            TypeEnum.bulletList,
+                            TypeEnum.orderedList,
+                            TypeEnum.taskList,
+                        ]
+                    ):
                         # Nested list - increase level
                         try:
                             md = node.to_markdown(
-- 
2.43.0


From 8aa3df7cfca302252321995193be61e5680fafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 08/30] fix: collapse any number of consecutive blank lines

Three passes leave two or more blank lines behind when a run is long enough,
for example around several empty paragraphs.
---
 atlas_doc_parser/markdown_helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..949040e 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -27,7 +27,7 @@ if T.TYPE_CHECKING:  # pragma: no cover
 
 def strip_double_empty_line(
     text: str,
-    n: int = 3,
+    n: T.Optional[int] = None,
 ) -> str:
     """
     Remove excessive consecutive empty lines from text.
@@ -41,8 +41,8 @@ def strip_double_empty_line(
     (3+ newlines) down to exactly one blank line (2 newlines).
 
     :param text: The input text that may contain excessive blank lines.
-    :param n: Number of replacement iterations to perform. Default is 3,
-        which handles up to 5 consecutive newlines being reduced to 2.
+    :param n: Maximum number of replacement iterations to perform. Default is
+        None, which repeats until there is nothing left to collapse.
     :return: Text with at most one consecutive blank line (two newlines).
 
     Example::
@@ -50,8 +50,10 @@ def strip_double_empty_line(
         >>> strip_double_empty_line("Hello\\n\\n\\n\\nWorld")
         'Hello\\n\\nWorld'
     """
-    for _ in range(n):
+    while "\n\n\n" in text and (n is None or n > 0):
         text = text.replace("\n\n\n", "\n\n")
+        if n is not None:
+            n -= 1
     return text
 
 
-- 
2.43.0


From 333e84c11e9148fef254fd51b71af90b9ab65679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 09/30] fix: export the ParamError that is really raised

atlas_doc_parser.api.ParamError was an unrelated class that nothing raises, so
"except ParamError" never caught a missing required field.
---
 atlas_doc_parser/exc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..27d5271 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -5,10 +5,8 @@ Exceptions for atlas_doc_parser.
 """
 
 
-class ParamError(Exception):
-    """Raised when a parameter validation fails."""
-
-    pass
+# Raised when a required parameter is missing.
+from func_args.api import ParamError
 
 
 class UnimplementedTypeError(Exception):
-- 
2.43.0


From eb497e4b823ed7b7e35ea56670a1467498ea1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/30] fix: report a missing required mark attribute as
 ParamError

Six attribute classes declared a required field without the REQ default (see
the maintainer guide), so leaving it out raised TypeError instead.
---
 atlas_doc_parser/marks/mark_alignment.py        | 2 +-
 atlas_doc_parser/marks/mark_background_color.py | 2 +-
 atlas_doc_parser/marks/mark_breakout.py         | 2 +-
 atlas_doc_parser/marks/mark_data_consumer.py    | 2 +-
 atlas_doc_parser/marks/mark_fragment.py         | 2 +-
 atlas_doc_parser/marks/mark_text_color.py       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/marks/mark_alignment.py b/atlas_doc_parser/marks/mark_alignment.py
index 163d95d..0aef2d2 100644
--- a/atlas_doc_parser/marks/mark_alignment.py
+++ b/atlas_doc_parser/marks/mark_alignment.py
@@ -18,7 +18,7 @@ class MarkAlignmentAttrs(Base):
         Valid values are ``"center"`` or ``"end"``.
     """
 
-    align: T.Literal["center", "end"]
+    align: T.Literal["center", "end"] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_background_color.py b/atlas_doc_parser/marks/mark_background_color.py
index 23b8733..4bb419e 100644
--- a/atlas_doc_parser/marks/mark_background_color.py
+++ b/atlas_doc_parser/marks/mark_background_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkBackgroundColorAttrs(Base):
     """Attributes for :class:`MarkBackgroundColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_breakout.py b/atlas_doc_parser/marks/mark_breakout.py
index 683a42c..2b4e27b 100644
--- a/atlas_doc_parser/marks/mark_breakout.py
+++ b/atlas_doc_parser/marks/mark_breakout.py
@@ -18,7 +18,7 @@ class MarkBreakoutAttrs(Base):
     :param width: Optional. Width value.
     """
 
-    mode: T.Literal["wide", "full-width"]
+    mode: T.Literal["wide", "full-width"] = REQ
     width: int = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_data_consumer.py b/atlas_doc_parser/marks/mark_data_consumer.py
index 7e7f10c..f6a3bb8 100644
--- a/atlas_doc_parser/marks/mark_data_consumer.py
+++ b/atlas_doc_parser/marks/mark_data_consumer.py
@@ -16,7 +16,7 @@ class MarkDataConsumerAttrs(Base):
     :param sources: Required. An array of source identifiers (minimum 1 item).
     """
 
-    sources: list[str]
+    sources: list[str] = REQ
 
 
 @dataclasses.dataclass(frozen=True)
diff --git a/atlas_doc_parser/marks/mark_fragment.py b/atlas_doc_parser/marks/mark_fragment.py
index 027969a..ad2f5cb 100644
--- a/atlas_doc_parser/marks/mark_fragment.py
+++ b/atlas_doc_parser/marks/mark_fragment.py
@@ -17,7 +17,7 @@ class MarkFragmentAttrs(Base):
     :param name: Optional. A human-readable name for the fragment.
     """
 
-    localId: str
+    localId: str = REQ
     name: str = OPT
 
 
diff --git a/atlas_doc_parser/marks/mark_text_color.py b/atlas_doc_parser/marks/mark_text_color.py
index d9e9cde..111010f 100644
--- a/atlas_doc_parser/marks/mark_text_color.py
+++ b/atlas_doc_parser/marks/mark_text_color.py
@@ -12,7 +12,7 @@ from ..mark_or_node import Base, BaseMark
 class MarkTextColorAttrs(Base):
     """Attributes for :class:`MarkTextColor`."""
 
-    color: str
+    color: str = REQ
 
 
 @dataclasses.dataclass(frozen=True)
-- 
2.43.0


From c57ff366f3c5ef013a6dbc395d702c5df15731e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 11/30] fix: write the table separator only after the first row

In a table with a header column every row starts with a tableHeader, so a
"| --- |" line was written after each of them and showed up as table data.
---
 atlas_doc_parser/nodes/node_table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 94f8e29..43f654b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -74,11 +74,16 @@ class NodeTable(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         lines = list()
-        for row in self.content:
+        for i, row in enumerate(self.content):
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
+                # Only the first row can be the header row of a Markdown table
+                if (
+                    i == 0
+                    and row.content
+                    and row.content[0].is_type_of(TypeEnum.tableHeader)
+                ):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From f10f956311e437fa097199fea590ad4dd57b91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 12/30] fix: separate task lists, decision lists and tables
 from the next block

They end without a newline, so a following paragraph was only one newline away
and Markdown took it for a table row, a quoted line or part of the last task.
---
 atlas_doc_parser/markdown_helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 949040e..2a5fe21 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -116,10 +116,10 @@ def doc_content_to_markdown(
     **block-level content** with additional processing:
 
     1. Joins blocks with newlines (not empty string)
-    2. Adds extra blank lines around lists and code blocks for proper rendering
+    2. Adds extra blank lines around lists, code blocks and tables for proper rendering
     3. Cleans up excessive blank lines using :func:`strip_double_empty_line`
 
-    The extra padding around lists and code blocks is needed because some
+    The extra padding around lists, code blocks and tables is needed because some
     Markdown renderers require blank lines before/after these elements to
     render them correctly as separate blocks.
 
@@ -147,6 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.bulletList,
                         TypeEnum.orderedList,
                         TypeEnum.codeBlock,
+                        TypeEnum.taskList,
+                        TypeEnum.decisionList,
+                        TypeEnum.table,
                     ]
                 ):
                     md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
-- 
2.43.0


From f6257280ecedee02a2caa960e7652b9645a5c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/30] fix: start every block of a table cell or list item on
 its own line

Blocks that do not end with a newline (lists, code blocks, images, extensions)
were glued to the block that follows, for example "- item" + "text" became
"- itemtext".
---
 atlas_doc_parser/markdown_helpers.py        | 24 +++++++++++++++++++++
 atlas_doc_parser/nodes/node_list_item.py    |  4 ++--
 atlas_doc_parser/nodes/node_table_cell.py   |  4 ++--
 atlas_doc_parser/nodes/node_table_header.py |  4 ++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 2a5fe21..f7a46cf 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -103,6 +103,30 @@ def content_to_markdown(
         return concat.join(lst)
 
 
+def block_content_to_markdown(
+    content: T.Union[list["T_NODE"], T.Literal[OPT]],
+    ignore_error: bool = False,
+) -> str:
+    """
+    Convert **block content** of a list item or a table cell to Markdown text.
+
+    Same as :func:`content_to_markdown`, but every block starts on its own line.
+
+    :param content: List of block-level child nodes to convert.
+    :param ignore_error: If True, silently skip nodes that fail to convert.
+    :return: Concatenated Markdown text from all child nodes.
+    """
+    if content is OPT:
+        return ""
+    md = ""
+    for node in content:
+        block = content_to_markdown([node], ignore_error=ignore_error)
+        if md and block and not (md.endswith("\n") or block.startswith("\n")):
+            md += "\n"
+        md += block
+    return md
+
+
 def doc_content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "\n",
diff --git a/atlas_doc_parser/nodes/node_list_item.py b/atlas_doc_parser/nodes/node_list_item.py
index 2235810..6bba252 100644
--- a/atlas_doc_parser/nodes/node_list_item.py
+++ b/atlas_doc_parser/nodes/node_list_item.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -58,4 +58,4 @@ class NodeListItem(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        return content_to_markdown(content=self.content, ignore_error=ignore_error)
+        return block_content_to_markdown(content=self.content, ignore_error=ignore_error)
diff --git a/atlas_doc_parser/nodes/node_table_cell.py b/atlas_doc_parser/nodes/node_table_cell.py
index e14fb46..b1d53c8 100644
--- a/atlas_doc_parser/nodes/node_table_cell.py
+++ b/atlas_doc_parser/nodes/node_table_cell.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -86,7 +86,7 @@ class NodeTableCell(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
diff --git a/atlas_doc_parser/nodes/node_table_header.py b/atlas_doc_parser/nodes/node_table_header.py
index dd19f7b..e9dfc9a 100644
--- a/atlas_doc_parser/nodes/node_table_header.py
+++ b/atlas_doc_parser/nodes/node_table_header.py
@@ -7,7 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import content_to_markdown
+from ..markdown_helpers import block_content_to_markdown
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -85,7 +85,7 @@ class NodeTableHeader(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
-        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
         md = md.replace("|", "\\|")
 
         # Convert leading spaces to &nbsp; for HTML table rendering
-- 
2.43.0


From aa6c6671113366471b9eebbb5013e5b0fcc374b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 14/30] fix: do not let backticks inside a code block close its
 fence

Code that contains ``` ended the block early and the rest of it was rendered
as document text.
---
 atlas_doc_parser/nodes/node_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_code_block.py b/atlas_doc_parser/nodes/node_code_block.py
index e37f469..fc940d4 100644
--- a/atlas_doc_parser/nodes/node_code_block.py
+++ b/atlas_doc_parser/nodes/node_code_block.py
@@ -68,4 +68,8 @@ class NodeCodeBlock(BaseNode):
                 )
         if lang == "none":
             lang = ""
-        return f"```{lang}\n{code}\n```"
+        # The fence has to be longer than any run of backticks in the code
+        fence = "```"
+        while fence in code:
+            fence += "`"
+        return f"{fence}{lang}\n{code}\n{fence}"
-- 
2.43.0


From 094dbd555d226e9ca45965b3c38267cda9a17f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 15/30] fix: do not let backticks inside inline code close the
 code span

---
 atlas_doc_parser/marks/mark_code.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_code.py b/atlas_doc_parser/marks/mark_code.py
index 09eaf41..191781c 100644
--- a/atlas_doc_parser/marks/mark_code.py
+++ b/atlas_doc_parser/marks/mark_code.py
@@ -28,6 +28,10 @@ class MarkCode(BaseMark):
                 "Code mark cannot contain newlines in markdown representation."
             )
         if text.strip():
-            return f"`` {text} ``"
+            # The delimiter has to be longer than any run of backticks in the text
+            delimiter = "``"
+            while delimiter in text:
+                delimiter += "`"
+            return f"{delimiter} {text} {delimiter}"
         else:
             return text
-- 
2.43.0


From 030be8356594a99653b623a4fc3d9d7ae0ca9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 16/30] fix: indent all content of a list item

Only the first line of an item was part of the list. A code block or second
paragraph of an item started at column 0, so it ended the list (and a numbered
or nested list was torn apart).
---
 atlas_doc_parser/nodes/node_bullet_list.py  | 8 ++++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 7dfc11b..a7bd5d0 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
+import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
@@ -67,6 +68,9 @@ class NodeBulletList(BaseNode):
         """
         lines = []
         indent = "    " * level  # 4 spaces per level
+        # Everything after the first line of an item belongs to the item only if
+        # it is indented like a nested list
+        item_indent = "    " * (level + 1)
 
         for item in self.content:
             if item.is_type_of(TypeEnum.listItem):
@@ -96,7 +100,7 @@ class NodeBulletList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
-                            content_lines.append(md)
+                            content_lines.append(textwrap.indent(md, item_indent))
                         except Exception as e:
                             if ignore_error:
                                 pass
@@ -107,7 +111,7 @@ class NodeBulletList(BaseNode):
                 item_content = "\n".join(content_lines)
 
                 # Format the first line with bullet point
-                bullet_content = item_content.split("\n")[0]
+                bullet_content = item_content.split("\n")[0].removeprefix(item_indent)
                 first_line = f"{indent}- {bullet_content}"
                 lines.append(first_line)
 
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 3a3c93c..55c2672 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
+import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
@@ -83,6 +84,9 @@ class NodeOrderedList(BaseNode):
         """
         lines = []
         indent = "    " * level  # 4 spaces per level
+        # Everything after the first line of an item belongs to the item only if
+        # it is indented like a nested list
+        item_indent = "    " * (level + 1)
 
         # Start numbering from attrs.order (or 1 for inner levels)
         if (
@@ -122,7 +126,7 @@ class NodeOrderedList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
-                            content_lines.append(md)
+                            content_lines.append(textwrap.indent(md, item_indent))
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
                                 pass
@@ -133,7 +137,7 @@ class NodeOrderedList(BaseNode):
                 item_content = "\n".join(content_lines)
 
                 # Format the first line with number
-                first_content = item_content.split("\n")[0]
+                first_content = item_content.split("\n")[0].removeprefix(item_indent)
                 first_line = f"{indent}{current_num}. {first_content}"
                 lines.append(first_line)
 
-- 
2.43.0


From 513b31778640768db500c12791bcfc7560f1b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 17/30] fix: do not insert prefixes inside a line of text

textwrap.indent() also breaks lines at vertical tab, form feed, U+2028 and
similar characters, so "> " (or list indentation) was inserted into text that
contains them.
---
 atlas_doc_parser/markdown_helpers.py        | 27 +++++++++++++++++++++
 atlas_doc_parser/nodes/node_blockquote.py   |  9 ++++---
 atlas_doc_parser/nodes/node_bullet_list.py  |  4 +--
 atlas_doc_parser/nodes/node_ordered_list.py |  4 +--
 atlas_doc_parser/nodes/node_panel.py        |  9 ++++---
 5 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index f7a46cf..ddb8eb9 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -16,6 +16,7 @@ Key concepts:
 """
 
 import typing as T
+import re
 
 from func_args.api import OPT
 
@@ -57,6 +58,32 @@ def strip_double_empty_line(
     return text
 
 
+def indent_lines(
+    text: str,
+    prefix: str,
+    predicate: T.Optional[T.Callable[[str], T.Any]] = None,
+) -> str:
+    """
+    Same as :func:`textwrap.indent`, but only ``\\n`` ends a line.
+
+    ``textwrap.indent`` also starts a new line at a vertical tab, form feed,
+    U+2028, and so on. Those can be part of the text and must not be followed
+    by a prefix.
+
+    :param text: The text to indent.
+    :param prefix: String to add to the beginning of the selected lines.
+    :param predicate: Selects the lines to indent. Default is all lines that do
+        not consist solely of whitespace.
+    :return: The indented text.
+    """
+    if predicate is None:
+        predicate = str.strip
+    return "".join(
+        prefix + line if predicate(line) else line
+        for line in re.findall(r"[^\n]*\n|[^\n]+", text)
+    )
+
+
 def content_to_markdown(
     content: T.Union[list["T_NODE"], T.Literal[OPT]],
     concat: str = "",
diff --git a/atlas_doc_parser/nodes/node_blockquote.py b/atlas_doc_parser/nodes/node_blockquote.py
index 7bed81e..6b4a1fc 100644
--- a/atlas_doc_parser/nodes/node_blockquote.py
+++ b/atlas_doc_parser/nodes/node_blockquote.py
@@ -1,14 +1,17 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import strip_double_empty_line, doc_content_to_markdown
+from ..markdown_helpers import (
+    indent_lines,
+    strip_double_empty_line,
+    doc_content_to_markdown,
+)
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -62,7 +65,7 @@ class NodeBlockquote(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            indent_lines(
                 strip_double_empty_line(
                     doc_content_to_markdown(
                         content=self.content,
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index a7bd5d0..b278968 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -1,13 +1,13 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import BaseNode
+from ..markdown_helpers import indent_lines
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_list_item import NodeListItem
@@ -100,7 +100,7 @@ class NodeBulletList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
-                            content_lines.append(textwrap.indent(md, item_indent))
+                            content_lines.append(indent_lines(md, item_indent))
                         except Exception as e:
                             if ignore_error:
                                 pass
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 55c2672..c9500f4 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -1,13 +1,13 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
+from ..markdown_helpers import indent_lines
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_list_item import NodeListItem
@@ -126,7 +126,7 @@ class NodeOrderedList(BaseNode):
                         # Regular content (like paragraph)
                         try:
                             md = node.to_markdown(ignore_error=ignore_error).rstrip()
-                            content_lines.append(textwrap.indent(md, item_indent))
+                            content_lines.append(indent_lines(md, item_indent))
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
                                 pass
diff --git a/atlas_doc_parser/nodes/node_panel.py b/atlas_doc_parser/nodes/node_panel.py
index 7307b3c..920005f 100644
--- a/atlas_doc_parser/nodes/node_panel.py
+++ b/atlas_doc_parser/nodes/node_panel.py
@@ -1,14 +1,17 @@
 # -*- coding: utf-8 -*-
 
 import typing as T
-import textwrap
 import dataclasses
 
 from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
-from ..markdown_helpers import strip_double_empty_line, doc_content_to_markdown
+from ..markdown_helpers import (
+    indent_lines,
+    strip_double_empty_line,
+    doc_content_to_markdown,
+)
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_paragraph import NodeParagraph
@@ -101,7 +104,7 @@ class NodePanel(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         return (
-            textwrap.indent(
+            indent_lines(
                 strip_double_empty_line(
                     "\n".join(
                         [
-- 
2.43.0


From 96439a24831d4a587c9050af65e5e0e8c5ce2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 18/30] fix: keep the text after a hard break inside its
 heading

A Markdown heading ends at the newline, so everything after a hardBreak became
a paragraph of its own.
---
 atlas_doc_parser/nodes/node_heading.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_heading.py b/atlas_doc_parser/nodes/node_heading.py
index 1ea1edb..8caeb6b 100644
--- a/atlas_doc_parser/nodes/node_heading.py
+++ b/atlas_doc_parser/nodes/node_heading.py
@@ -78,11 +78,14 @@ class NodeHeading(BaseNode):
         self,
         ignore_error: bool = False,
     ) -> str:
+        title = content_to_markdown(content=self.content, ignore_error=ignore_error)
+        # A Markdown heading is a single line, so hard breaks become spaces
+        title = title.replace("  \n", " ")
         md = (
             "\n\n"
             + "{} {}".format(
                 "#" * self.attrs.level,
-                content_to_markdown(content=self.content, ignore_error=ignore_error),
+                title,
             )
             + "\n\n"
         )
-- 
2.43.0


From bdef8d9e08b522a22b2f3a721cf38cdb9e069ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 19/30] fix: indent the lines after a hard break in a task item

---
 atlas_doc_parser/nodes/node_task_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 0161946..02889d3 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -7,6 +7,7 @@ from func_args.api import REQ, OPT
 
 from ..type_enum import TypeEnum
 from ..mark_or_node import Base, BaseNode
+from ..markdown_helpers import indent_lines
 
 if T.TYPE_CHECKING:  # pragma: no cover
     from .node_task_item import NodeTaskItem
@@ -108,8 +109,11 @@ class NodeTaskList(BaseNode):
                 checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"
 
                 # Format the line with checkbox
-                line = f"{indent}- {checkbox} {item_content}"
+                first, *rest = item_content.split("\n")
+                line = f"{indent}- {checkbox} {first}"
                 lines.append(line)
+                # Lines after a hard break belong to the item only if indented
+                lines.extend(indent_lines(text, indent + "    ") for text in rest)
 
             elif item.is_type_of(TypeEnum.taskList):
                 # Nested task list - increase level
-- 
2.43.0


From df9b58d833108bd471c1b3e79b0e98f25b8b828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 20/30] fix: do not parse content and marks that the node type
 does not have

---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index b81605b..c71c630 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -255,7 +255,7 @@ class BaseNode(BaseMarkOrNode):
                     dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
 
         # Deserialize content (child nodes)
-        if "content" in dct:
+        if "content" in dct and "content" in cls.get_fields():
             if isinstance(dct["content"], list) and parse_node is not None:
                 new_content = []
                 for d in dct["content"]:
@@ -271,7 +271,7 @@ class BaseNode(BaseMarkOrNode):
                 dct["content"] = new_content
 
         # Deserialize marks
-        if "marks" in dct:
+        if "marks" in dct and "marks" in cls.get_fields():
             if isinstance(dct["marks"], list) and parse_mark is not None:
                 new_marks = []
                 for d in dct["marks"]:
-- 
2.43.0


From bd659e0a98a75faa832bab8ad77f76af1b9b42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 21/30] fix: indent lines of exotic whitespace, which are not
 blank in Markdown

---
 atlas_doc_parser/markdown_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index ddb8eb9..22990e9 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -73,11 +73,12 @@ def indent_lines(
     :param text: The text to indent.
     :param prefix: String to add to the beginning of the selected lines.
     :param predicate: Selects the lines to indent. Default is all lines that do
-        not consist solely of whitespace.
+        not consist solely of spaces and tabs. (Other whitespace, like a no-break
+        space, does not make a line blank in Markdown.)
     :return: The indented text.
     """
     if predicate is None:
-        predicate = str.strip
+        predicate = lambda line: line.strip(" \t\n")
     return "".join(
         prefix + line if predicate(line) else line
         for line in re.findall(r"[^\n]*\n|[^\n]+", text)
-- 
2.43.0


From 5b897434672e9bd04ed39ed44352d4fdfcd9142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 22/30] fix: find node modules when the package lives below a
 folder named marks

---
 atlas_doc_parser/gen_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/gen_code.py b/atlas_doc_parser/gen_code.py
index 8fb44be..ec3e00e 100644
--- a/atlas_doc_parser/gen_code.py
+++ b/atlas_doc_parser/gen_code.py
@@ -64,9 +64,9 @@ def scan_module_for_public_apis(
     module_name = module_path.stem  # e.g., "mark_link"
 
     # Determine the full module path for import
-    if "marks" in module_path.parts:
+    if module_path.parent.name == "marks":
         full_module_name = f"atlas_doc_parser.marks.{module_name}"
-    elif "nodes" in module_path.parts:
+    elif module_path.parent.name == "nodes":
         full_module_name = f"atlas_doc_parser.nodes.{module_name}"
     else:
         return []
-- 
2.43.0


From 3cdcc2b2444bf505bea46c0e38abc5fa218efa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 23/30] fix: import a type alias of a single class only once

---
 atlas_doc_parser/gen_code.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/atlas_doc_parser/gen_code.py b/atlas_doc_parser/gen_code.py
index ec3e00e..996a9ad 100644
--- a/atlas_doc_parser/gen_code.py
+++ b/atlas_doc_parser/gen_code.py
@@ -86,8 +86,19 @@ def scan_module_for_public_apis(
         if name.startswith("_"):
             continue
 
+        # Check for type aliases (T_NODE_*, T_MARK_*)
+        # Type aliases are typically typing constructs
+        if name.startswith("T_NODE_") or name.startswith("T_MARK_"):
+            public_apis.append(
+                PublicAPI(
+                    module_name=module_name,
+                    class_name=name,
+                    is_type_alias=True,
+                )
+            )
+
         # Check if it's a class defined in this module
-        if inspect.isclass(obj) and obj.__module__ == full_module_name:
+        elif inspect.isclass(obj) and obj.__module__ == full_module_name:
             # Check if it inherits from any of the base classes
             if issubclass(obj, base_classes):
                 is_attrs = name.endswith("Attrs")
@@ -99,17 +110,6 @@ def scan_module_for_public_apis(
                     )
                 )
 
-        # Check for type aliases (T_NODE_*, T_MARK_*)
-        # Type aliases are typically typing constructs
-        if name.startswith("T_NODE_") or name.startswith("T_MARK_"):
-            public_apis.append(
-                PublicAPI(
-                    module_name=module_name,
-                    class_name=name,
-                    is_type_alias=True,
-                )
-            )
-
     return public_apis
 
 
-- 
2.43.0


From df6b58a1884947ad60c6ebde0738781c197247f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 24/30] fix: UnimplementedTypeError can be copied and pickled

---
 atlas_doc_parser/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 27d5271..62596dd 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -36,3 +36,8 @@ class UnimplementedTypeError(Exception):
             f"Please submit an issue at https://github.com/MacHu-GWU/atlas_doc_parser-project/issues "
             f"with this type name so it can be added in a future release."
         )
+
+    def __reduce__(self):
+        # The default would call ``__init__`` with the message only, so that the
+        # error could not be copied or sent to another process.
+        return type(self), (self.type_value, self.category), self.__dict__
-- 
2.43.0


From 23bc2bf88cb3c3dd65ac16afbb3cec6e2bc73674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 25/30] fix: content of list items numbered 100 and above stays
 in the item

---
 atlas_doc_parser/nodes/node_ordered_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index c9500f4..c30ac2e 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -144,7 +144,9 @@ class NodeOrderedList(BaseNode):
                 # Add remaining lines
                 remaining_lines = item_content.split("\n")[1:]
                 if remaining_lines:
-                    lines.extend(remaining_lines)
+                    # A number of three or more digits is wider than one level
+                    extra = " " * (len(f"{current_num}. ") - 4)
+                    lines.append(indent_lines("\n".join(remaining_lines), extra))
 
                 current_num += 1
 
-- 
2.43.0


From 11f801dbd241858bd37e3b623cfc8c4ea67b20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 26/30] fix: an AttributeError raised by a mark's to_markdown
 is not swallowed

---
 atlas_doc_parser/markdown_helpers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 22990e9..bd871ca 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -247,13 +247,10 @@ def add_style_to_markdown(
         md = add_style_to_markdown(md, self)
         return md
     """
-    try:
-        if isinstance(node.marks, list):
-            for mark in node.marks:
-                md = mark.to_markdown(md)
     # some node doesn't have marks attribute (don't support styles)
-    except AttributeError:
-        pass
+    if isinstance(getattr(node, "marks", OPT), list):
+        for mark in node.marks:
+            md = mark.to_markdown(md)
     return md
 
 
-- 
2.43.0


From 1e231e225360d5331abf1d7f301c0aaf381c58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:17 +0000
Subject: [PATCH 27/30] fix: a line feed in a heading's text does not break the
 heading

---
 atlas_doc_parser/nodes/node_heading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_heading.py b/atlas_doc_parser/nodes/node_heading.py
index 8caeb6b..4e9f1c4 100644
--- a/atlas_doc_parser/nodes/node_heading.py
+++ b/atlas_doc_parser/nodes/node_heading.py
@@ -79,8 +79,8 @@ class NodeHeading(BaseNode):
         ignore_error: bool = False,
     ) -> str:
         title = content_to_markdown(content=self.content, ignore_error=ignore_error)
-        # A Markdown heading is a single line, so hard breaks become spaces
-        title = title.replace("  \n", " ")
+        # A Markdown heading is a single line, so line breaks become spaces
+        title = title.replace("  \n", " ").replace("\n", " ")
         md = (
             "\n\n"
             + "{} {}".format(
-- 
2.43.0


From 3316630a676df2250f9f0d193b2b0c00dfdd43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 28/30] fix: a blank link title does not make the linked text
 disappear

---
 atlas_doc_parser/marks/mark_link.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_link.py b/atlas_doc_parser/marks/mark_link.py
index 557d2ad..d412ba3 100644
--- a/atlas_doc_parser/marks/mark_link.py
+++ b/atlas_doc_parser/marks/mark_link.py
@@ -45,7 +45,8 @@ class MarkLink(BaseMark):
         self,
         text: str,
     ) -> str:
-        if isinstance(self.attrs.title, str):
+        # a blank title must not make the text disappear
+        if isinstance(self.attrs.title, str) and self.attrs.title.strip():
             title = self.attrs.title
         else:
             title = text
-- 
2.43.0


From ced6019409dde9c04a546dc6274f5527b931db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:36 +0000
Subject: [PATCH 29/30] fix: a list of types in a schema broke the code
 generator

---
 scripts/s02-nodes-code-gen/s1_gen_code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/s02-nodes-code-gen/s1_gen_code.py b/scripts/s02-nodes-code-gen/s1_gen_code.py
index 5f34c07..1b72b37 100644
--- a/scripts/s02-nodes-code-gen/s1_gen_code.py
+++ b/scripts/s02-nodes-code-gen/s1_gen_code.py
@@ -299,7 +299,9 @@ def schema_type_to_python(prop_schema: dict, required: bool = False) -> str:
             "array": "list",
             "object": "dict[str, T.Any]",
         }
-        return type_map.get(prop_schema["type"], "T.Any")
+        type_ = prop_schema["type"]
+        # a list of types, e.g. ["string", "null"], has no direct equivalent
+        return type_map.get(type_, "T.Any") if isinstance(type_, str) else "T.Any"
     if "anyOf" in prop_schema or "oneOf" in prop_schema:
         return "T.Any"
     return "T.Any"
-- 
2.43.0


From eb9c781e7eb04c9273f758ed9c17b5c6eb610ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:17 +0000
Subject: [PATCH 30/30] fix: marks ignored the to_dict() of their attributes
 class

---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index c71c630..4f7db94 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -168,8 +168,8 @@ class BaseMark(BaseMarkOrNode):
     def to_dict(self) -> T_DATA:
         """Serialize to dictionary, handling nested attrs."""
         data = super().to_dict()
-        if "attrs" in data and hasattr(data["attrs"], "to_dict"):
-            data["attrs"] = remove_optional(**data["attrs"])
+        if "attrs" in data and hasattr(self.attrs, "to_dict"):
+            data["attrs"] = self.attrs.to_dict()
         return data
 
     def to_markdown(self, text: str) -> str:
-- 
2.43.0

