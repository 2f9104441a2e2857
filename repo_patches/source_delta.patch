From 9d4760372f1581fbe8ba142e363d99d08a06cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 01/72] fix: depth of a passage identifier no longer counts the
 dots of its subreference

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..941d81b 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -103,11 +103,11 @@ class CtsSinglePassageId(str):
         yield from subref.split(".")
 
     def __len__(self) -> int:
-        return self.count(".") + 1
+        return self.split("@")[0].count(".") + 1
 
     @property
     def depth(self) -> int:
-        return self.count(".") + 1
+        return len(self)
 
 
 class CtsReference(BaseReference):
-- 
2.43.0


From b3a87f6fcaa23eabfcece7bd4b85d4aeb1576501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 02/72] fix: citation scope and xpath keep every character of
 the refsDecl

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 941d81b..c297012 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -7,7 +7,7 @@ from MyCapytain.common.utils.xml import make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
+REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
-- 
2.43.0


From 76ee812d83669ad8b7369c862f9c1bb6fc357d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/72] fix: only placeholders of a refsDecl are filled, not
 constant numeric predicates

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index c297012..9edec97 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
-REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
+REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
 def _child_or_none(liste):
-- 
2.43.0


From 8e66d6a025b376fbeb65720062a42eb9b35266ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 04/72] fix: every level of a citation scheme built by hand
 shares the same root

---
 MyCapytain/common/reference/_base.py          | 2 ++
 MyCapytain/common/reference/_capitains_cts.py | 4 ----
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..bda9e5a 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -50,6 +50,8 @@ class BaseCitationSet(Exportable):
                         citation.root = self.root
                     else:
                         citation.root = self
+                    for descendant in citation:
+                        descendant.root = citation.root
                     final_value.append(citation)
 
         self._children = final_value
diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 9edec97..a595a93 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -759,10 +759,6 @@ class Citation(BaseCitation):
     def child(self, val):
         if val:
             self.children = [val]
-            if self.is_root():
-                val.root = self
-            else:
-                val.root = self.root
         else:
             self.children = []
 
-- 
2.43.0


From 4b4a2b06362ae5aa586dc02b51ef29671c3afdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 05/72] fix: attribute values and labels are escaped in
 exported XML

---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 MyCapytain/common/utils/xml.py                | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index a595a93..1a3f5e9 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,5 +1,6 @@
 import re
 from typing import Optional, List, Union, Tuple
+from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
@@ -906,8 +907,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=escape(self.refsDecl),
+                    label=escape(label, {"\"": "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..2f1cd48 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(text_type(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(text_type(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From 16a3347d05a8e85e556e06f29b79ad1b17a2d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 06/72] fix: a citation whose scope is empty keeps its xpath

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 1a3f5e9..2f095d4 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -697,7 +697,7 @@ class Citation(BaseCitation):
         self.__refsDecl = None
 
         self.name = name
-        if scope and xpath:
+        if scope is not None and xpath:
             self._fromScopeXpathToRefsDecl(scope, xpath)
         else:
             self.refsDecl = refsDecl
-- 
2.43.0


From 930ddc9ed18bfa2e8fda705b729869f298831884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 07/72] fix: ranges find their limits by node and not by
 textual value

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 2f1cd48..29921d0 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From 6ffa91f5a15384e73ec95e512b65adb37fe2c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 08/72] fix: comments and processing instructions inside a
 range are kept as such

---
 MyCapytain/common/utils/xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 29921d0..32f430d 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -161,6 +161,12 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
+    if parent is not False and not isinstance(node.tag, str):
+        # Comments and processing instructions have no name to rebuild from
+        element = copy(node)
+        element.tail = None
+        parent.append(element)
+        return element
     if parent is not False:
         element = SubElement(
             parent,
-- 
2.43.0


From 82edb9814d4f882c97ee8e99aeb3f09bd4b93f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 09/72] fix: comments inside a range are kept as such in
 objectified texts too

---
 MyCapytain/common/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 32f430d..b87ac8a 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -161,8 +161,9 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
-    if parent is not False and not isinstance(node.tag, str):
+    if parent is not False and not node.xpath("boolean(self::*)"):
         # Comments and processing instructions have no name to rebuild from
+        # (objectified trees give them a tag, hence the XPath)
         element = copy(node)
         element.tail = None
         parent.append(element)
-- 
2.43.0


From c124fa1cf285dbde588cb069663a5212815676e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 10/72] fix: neighbours of a range are counted from its limits
 in the document

---
 MyCapytain/resources/texts/local/capitains/cts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..5d47062 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -634,13 +634,12 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
 
         if self.reference.is_range():
             start, end = self.reference.start, self.reference.end
-            range_length = len(self.getReffs(level=0))
         else:
             start = end = self.reference.start
-            range_length = 1
 
         start = document_references.index(start)
         end = document_references.index(end)
+        range_length = end - start + 1
 
         if start == 0:
             # If the passage is already at the beginning
-- 
2.43.0


From 4208e3f8e6999cdc57b7cc93ba46ad1b7aab2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/72] fix: nested dictionary export of passages

---
 MyCapytain/resources/texts/base/tei.py            | 12 +++++++++---
 MyCapytain/resources/texts/local/capitains/cts.py | 13 +++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..78cfc80 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -105,11 +105,10 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-            reffs = self.getReffs(level=len(self.citation))
             text = nested_ordered_dictionary()
-            for reff in reffs:
+            for reff in self._leafReffs():
                 _r = str(reff).split(".")  # Only works for non range of course
-                nested_set(text, _r, self.getTextualNode(_r).export(
+                nested_set(text, _r, self.getTextualNode(reff).export(
                     Mimetypes.PLAINTEXT,
                     exclude=exclude,
                     _preformatted=True
@@ -132,6 +131,13 @@ class TeiResource(InteractiveTextualNode):
                 )
             )
 
+    def _leafReffs(self):
+        """ References of the deepest level of the citation scheme available in the resource
+
+        :return: References of the deepest level
+        """
+        return self.getReffs(level=len(self.citation))
+
     @property
     def xml(self):
         """ XML Representation of the CapitainsCtsPassage
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 5d47062..5099f01 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -287,6 +287,19 @@ class _SharedMethods(TeiResource):
         )
         return references
 
+    def _leafReffs(self):
+        """ References of the deepest level of the citation scheme available in the resource
+
+        :return: References of the deepest level
+        """
+        level = len(self.citation.root)
+        reference = getattr(self, "reference", None)
+        if reference is not None and reference.start.depth == level:
+            if not reference.is_range() or reference.start == reference.end:
+                return [CtsReference(reference.start)]
+            level = 0  # Units of the range itself
+        return self.textObject.getValidReff(level=level, reference=reference)
+
     def xpath(self, *args, **kwargs):
         """ Perform XPath on the passage XML
 
-- 
2.43.0


From 4fccfc7fa09c8748adecff4bf99a201bab1a129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 12/72] fix: passages reached with next or prev keep their
 text, so that one can go on

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 5099f01..69a926b 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -690,14 +690,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if not isinstance(subreference, CtsReference):
-- 
2.43.0


From 3401b44146d381e0bc45de5d482acfe9cf1858db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 13/72] fix: XML export of a passage does not include the text
 following it

---
 MyCapytain/resources/texts/base/tei.py            | 2 +-
 MyCapytain/resources/texts/local/capitains/cts.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 78cfc80..bd35afe 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 69a926b..c15fe3b 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -319,6 +319,8 @@ class _SharedMethods(TeiResource):
         :param kwargs: Named arguments
         :return:
         """
+        # What follows the passage in its parent is not part of it
+        kwargs.setdefault("with_tail", False)
         return etree.tostring(self.resource, *args, **kwargs)
 
 
-- 
2.43.0


From 071713f85369e54b04ce177d03b99fe44dc8cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 14/72] fix: deleting a member of a collection keeps the
 metadata of the collection itself

---
 MyCapytain/resources/prototypes/metadata.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..107a6a7 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,6 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From 1e38ebdec799e04d04eff27d96e5a534a0f01a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 15/72] fix: exporting metadata does not alter the list of the
 terms to export

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..a7b77fc 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,7 +166,7 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = list(only)
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
                 if str(predicate) not in only:
-- 
2.43.0


From c4e54fa0a104de7db430fc24bae54fe1f82409f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 16/72] fix: metadata can be requested in a language when some
 values are identifiers

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index a7b77fc..83888f0 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From a07a0e7eaf827dd2976e491dea9b04c605f749ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 17/72] fix: creator and title of a CTS text are the labels of
 its textgroup and work

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..7463462 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From f24dd53f08e1a99a4f23aa2c719687ab7a2436ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 18/72] fix: structured metadata are exported with the datatype
 attribute which is read back

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 83888f0..75b395c 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -223,7 +223,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From 5c873d8239384bd8ebea9d0d6a86daa96e0929ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 19/72] fix: metadata do not advertise RDFa, for which there is
 no export

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 75b395c..55b7d0d 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -29,7 +29,7 @@ class Metadata(Exportable):
     :cvar DEFAULT_EXPORT: Default export (CTS XML Inventory)
     :cvar STORE: RDF Store
     """
-    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.XML.RDFa, Mimetypes.JSON.LD,
+    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.JSON.LD,
                  Mimetypes.XML.CapiTainS.CTS]
     DEFAULT_EXPORT = Mimetypes.JSON.Std
     
-- 
2.43.0


From ebf7a2cccd55b40ed0a074007d80b7e0b00688cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 20/72] fix: structured metadata keep the text of values which
 look like numbers or booleans

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..f26e66c 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,11 +111,11 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0


From a99bea52886f005b2e6d55e81f032440afa9a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 21/72] fix: empty labels of an inventory are read as empty and
 not as None

---
 MyCapytain/resources/collections/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index f26e66c..024e514 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -165,12 +165,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -270,7 +270,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -312,7 +312,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From 58704f56cf7272e2116c3b3ca6e47ba20e335f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 22/72] fix: inventory collections export to CapiTainS CTS, and
 to DTS when they are empty

---
 MyCapytain/resources/prototypes/cts/inventory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 7463462..3bc9271 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -728,7 +728,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -739,10 +739,10 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
-                return Collection.__export__(self, output=output)
-            else:
+            if len(self.members) == 1:
                 return self.members[0].export(output=output)
+            else:
+                return Collection.__export__(self, output=output)
-- 
2.43.0


From b6e379cb8061ecbe4747ad73bb124948160ba321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 23/72] fix: terms to export can be given as strings

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 55b7d0d..1dce430 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,7 +166,7 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = list(only)
+            _only = [URIRef(str(s)) for s in only]
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
                 if str(predicate) not in only:
-- 
2.43.0


From d0d7d4bc218c90e22c72f424256c493b5bc7a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 24/72] fix: labels and CTS properties can be requested when
 some values are identifiers

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 MyCapytain/resources/prototypes/metadata.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 3bc9271..b525f2d 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -75,7 +75,7 @@ class PrototypeCtsCollection(Collection):
         :rtype: dict or Literal
         """
         x = {
-            obj.language: obj for obj in self.metadata.get(RDF_NAMESPACES.CTS.term(prop))
+            getattr(obj, "language", None): obj for obj in self.metadata.get(RDF_NAMESPACES.CTS.term(prop))
         }
         if lang is not None:
             if lang in x:
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 107a6a7..c2cefab 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -135,7 +135,7 @@ class Collection(Exportable):
                 return obj
         for obj in self.graph.objects(self.asNode(), RDFS.label):
             x = obj
-            if x.language == lang:
+            if getattr(x, "language", None) == lang:
                 return x
         return x
 
-- 
2.43.0


From fab9dfe9f1d6bca7fd57f5da0cb403e1ec4043ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 25/72] fix: CTS exports declare the CTS namespace even when
 nothing has a label

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index c2cefab..1eefb38 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -284,7 +284,7 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        for predicate in set(self.graph.predicates()).union([self.TYPE_URI]):
             prefix, namespace, name = nm.compute_qname(predicate)
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
-- 
2.43.0


From 554e6f7a6674aeb283f10d5ce6837f07060d8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 26/72] fix: works and texts without a language have no
 language instead of the language "None"

---
 MyCapytain/resources/prototypes/cts/inventory.py | 13 +++++++++----
 MyCapytain/resources/prototypes/metadata.py      |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index b525f2d..44b3736 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -217,7 +217,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
 
         if parent is not None:
             self.parent = parent
-            if lang is None:
+            if lang is None and self.parent.lang is not None:
                 self.lang = self.parent.lang
 
     @property
@@ -282,7 +282,9 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :returns: Desired output formatted resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["workUrn"] = self.parent.id
             if namespaces is True:
@@ -463,7 +465,8 @@ class CtsWorkMetadata(PrototypeCtsCollection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return str(lang) if lang is not None else None
 
     @lang.setter
     def lang(self, lang):
@@ -535,7 +538,9 @@ class CtsWorkMetadata(PrototypeCtsCollection):
         :returns: Desired output formated resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["groupUrn"] = self.parent.id
             return self.__xml_export_generic__(attrs, namespaces=namespaces, output=output)
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 1eefb38..0b0a2a2 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -445,7 +445,8 @@ class ResourceCollection(Collection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return str(lang) if lang is not None else None
 
     @lang.setter
     def lang(self, lang):
-- 
2.43.0


From 67f81b28b46751d99e6952fd746168bfbd4fd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:58 +0000
Subject: [PATCH 27/72] fix: expanding a prefix leaves the rest of the name
 alone

---
 MyCapytain/common/utils/_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..61b995e 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -78,5 +78,5 @@ def expand_namespace(nsmap, string):
     """
     for ns in nsmap:
         if isinstance(string, str) and isinstance(ns, str) and string.startswith(ns+":"):
-            return string.replace(ns+":", nsmap[ns])
+            return nsmap[ns] + string[len(ns)+1:]
     return string
\ No newline at end of file
-- 
2.43.0


From 66819cca7222efcc243ad5213afda1f6cebe4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 28/72] fix: metadata files which cannot be read are skipped
 when errors are not to be raised

---
 MyCapytain/resolvers/cts/local.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..79d0a9d 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,15 +286,18 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From c5f13efddff3d399e0a74871799da3b79b34a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:10 +0000
Subject: [PATCH 29/72] fix: the edition of a work is not looked for in works
 whose identifier starts the same

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 79d0a9d..01ee79a 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -329,7 +329,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.parent.id == str(urn) and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 188c58aa4115f56c8c59bea0c443090851f0883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 30/72] fix: pages past the end of a list whose length is a
 multiple of the limit, or of an empty one

---
 MyCapytain/resolvers/cts/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 01ee79a..ada485c 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -415,8 +415,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page > 0 and page >= length:
+            realpage = max(1, int(ceil(length / limit)))
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From e8491ec3cbf9a4ea35c96a652310b898debeb95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 31/72] fix: the number of the page is given when the default
 page is asked for

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index ada485c..6703d8c 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -406,8 +406,8 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
         page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
-- 
2.43.0


From ff6e03fc8ec8125b68ee174060eb786aabed8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:05 +0000
Subject: [PATCH 32/72] fix: the local resolver knows its whole inventory by
 its identifier

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 6703d8c..7258029 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -435,7 +435,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type filters: dict
         :return: Collection
         """
-        if objectId is None:
+        if objectId is None or objectId == self.inventory.id:
             return self.inventory
         elif objectId in self.inventory.children.keys():
             return self.inventory[objectId]
-- 
2.43.0


From c82f2c078275ac066d074b0c0db769129adc559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 33/72] fix: read the language of the labels of CTS replies

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..12ff1aa 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,22 +159,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From 0cd2da36ba699799b40efe1af322788e72034aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:57 +0000
Subject: [PATCH 34/72] fix: ask a remote passage for another passage of the
 same text, not for one below itself

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 12ff1aa..5a3c855 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From 388fd63e233c1534869738e7009786a5edf1b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 35/72] fix: count the level of remote references from the
 passage they are asked for

---
 MyCapytain/resources/texts/remote/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 5a3c855..08c2224 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -126,7 +126,11 @@ class _SharedMethod(InteractiveTextualNode):
         :rtype: [text_type]
         :returns: List of levels
         """
-        if self.depth is not None:
+        if subreference:
+            if not isinstance(subreference, CtsReference):
+                subreference = CtsReference(subreference)
+            level += subreference.depth
+        elif self.depth is not None:
             level += self.depth
 
         return self.getValidReff(level, subreference)
-- 
2.43.0


From 54e6ebf777aec85aa2e5584137bad921592eb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 36/72] fix: a remote passage of the first level has no parent

---
 MyCapytain/resources/prototypes/text.py  | 3 ++-
 MyCapytain/resources/texts/remote/cts.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 03fa4bc..62864ed 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -306,7 +306,8 @@ class InteractiveTextualNode(TextualGraph):
         """ Parent TextualNode
 
         """
-        return self.getTextualNode(self.parentId)
+        if self.parentId is not None:
+            return self.getTextualNode(self.parentId)
 
     @property
     def first(self) -> TextualNode:
diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 08c2224..13cf7fa 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -429,7 +429,9 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        return str(self.urn.reference.parent)
+        parent = self.urn.reference.parent
+        if parent is not None:
+            return str(parent)
 
     @property
     def nextId(self):
-- 
2.43.0


From 03da91930824b8d14276c3ad25cc94cc126a1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:46 +0000
Subject: [PATCH 37/72] fix: parse XML strings which carry an encoding
 declaration

---
 MyCapytain/common/utils/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index b87ac8a..c877824 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape
@@ -22,6 +23,7 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+_encoding_declaration = re.compile(r"""^(\s*<\?xml\s[^>]*?)\s+encoding\s*=\s*("[^"]*"|'[^']*')""")
 
 
 def make_xml_node(graph, name, close=False, attributes=None, text="", complete=False, innerXML=""):
@@ -93,7 +95,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # The declared encoding is the one of the bytes the string was decoded from : lxml refuses it in a string
+        xml = StringIO(_encoding_declaration.sub(r"\1", xml))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From f1a7b63b3d2e84b4ad55cd6bddcf20b4fc686805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:49 +0000
Subject: [PATCH 38/72] fix: routes of a DTS endpoint given with a host or with
 valueless parameters are kept whole

---
 MyCapytain/common/utils/_http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..ebe3830 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -38,8 +38,8 @@ def parse_uri(uri, endpoint_uri):
     :return: Parsed route
     :rtype: _Route
     """
-    temp_parse = urlparse(uri)
+    resolved = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
-        parse_qs(temp_parse.query)
+        resolved._replace(query="", fragment="").geturl(),
+        parse_qs(resolved.query, keep_blank_values=True)
     )
-- 
2.43.0


From 334c68b8902e8a9f3b1fe7522027e7331e23df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 39/72] fix: the page of a pagination link is found wherever it
 is in the query, or absent

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index ebe3830..7e82e7e 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From cdeed1152a76f2b6d420128f9383d80aa9b65ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 40/72] fix: a set of one reference holds that reference, not
 its parts

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index bda9e5a..3bb5365 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -358,7 +358,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], BaseReference):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From 030bc65c537e935dc363933243550abb28268de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:25 +0000
Subject: [PATCH 41/72] fix: DTS references and sets of references agree on ==,
 != and hash

---
 MyCapytain/common/reference/_dts_1.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..ed5e7b9 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -33,10 +33,16 @@ class DtsReference(BaseReference):
         self.metadata.set(_dts.term("citeType"), value)
 
     def __eq__(self, other):
-        return super(DtsReference, self).__eq__(other) and \
-            isinstance(other, DtsReference) and \
+        return isinstance(other, DtsReference) and \
+            super(DtsReference, self).__eq__(other) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return super(DtsReference, self).__hash__()
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -50,11 +56,17 @@ class DtsReferenceSet(BaseReferenceSet):
                BaseReferenceSet.__contains__(self, DtsReference(item))
 
     def __eq__(self, other):
-        return super(DtsReferenceSet, self).__eq__(other) and \
+        return isinstance(other, DtsReferenceSet) and \
+            super(DtsReferenceSet, self).__eq__(other) and \
             self.level == other.level and \
-            isinstance(other, DtsReferenceSet) and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return super(DtsReferenceSet, self).__hash__()
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From 354233a30a7559db88c9b71304900051c849da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 42/72] fix: the identifier of a typed reference is found in a
 DTS set of references

---
 MyCapytain/common/reference/_dts_1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index ed5e7b9..a0fbd41 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -52,8 +52,9 @@ class DtsReference(BaseReference):
 
 class DtsReferenceSet(BaseReferenceSet):
     def __contains__(self, item: str) -> bool:
-        return BaseReferenceSet.__contains__(self, item) or \
-               BaseReferenceSet.__contains__(self, DtsReference(item))
+        if isinstance(item, str):  # An identifier says nothing about the type of its reference
+            return any(ref.start == item and not ref.is_range() for ref in self)
+        return BaseReferenceSet.__contains__(self, item)
 
     def __eq__(self, other):
         return isinstance(other, DtsReferenceSet) and \
-- 
2.43.0


From 4bcd6e459aff923d3ccf228a77bc0a12cb29e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 43/72] fix: an empty navigation reply is reported as such

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..a12959d 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From 71942716c0b4ddafc0c4c67f90e08bdbb7cba3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:24 +0000
Subject: [PATCH 44/72] fix: the next page is read from the page parameter only
 (not from per_page)

---
 MyCapytain/resolvers/dts/api_v1.py                | 2 +-
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index a12959d..b6b12c2 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..d1e7ead 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From 4b162c0e230a47f48226cfa120d31cd77db0d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 45/72] fix: every MyCapytain error can be caught as an
 Exception

---
 MyCapytain/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/errors.py b/MyCapytain/errors.py
index d05c5a5..6aeab7d 100644
--- a/MyCapytain/errors.py
+++ b/MyCapytain/errors.py
@@ -14,7 +14,7 @@ class MyCapytainException(BaseException):
     """
 
 
-class JsonLdCollectionMissing(MyCapytainException):
+class JsonLdCollectionMissing(Exception, MyCapytainException):
     """ Error thrown when a JSON LD contains no principle collection
 
     Raised when a json supposed to contain collection is parsed
@@ -85,7 +85,7 @@ class MissingRefsDecl(Exception, MyCapytainException):
     """
 
 
-class PaginationBrowsingError(MyCapytainException):
+class PaginationBrowsingError(Exception, MyCapytainException):
     """ When contacting a remote service and some part of the pages where not reachable or parsable
     """
 
-- 
2.43.0


From c5540e435816a1ee62a5b323cdee28a74d27e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 46/72] fix: metadata whose value is a URI are read from
 JSON-LD

---
 MyCapytain/common/utils/_json_ld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..39b62a3 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -22,7 +22,9 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
-    if isinstance(dict_container["@value"], int):
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
+    elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
         return dict_container["@value"], dict_container.get("@language", None)
\ No newline at end of file
-- 
2.43.0


From ed4552dfeea6489b73adf3004329a8f32947f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:06 +0000
Subject: [PATCH 47/72] fix: the parent of a DTS document is the up link

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..d6ad6da 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,11 +96,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From 79627de4164ebef5782cdb8e01d7a69bcc899d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:20 +0000
Subject: [PATCH 48/72] fix: references of a DTS document are asked at the
 level given

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index d6ad6da..2a4a63c 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From 46d45f8e929f828fbcfa267f97edddc1194f400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 49/72] fix: members of a DTS collection are loaded even when
 its parents already were

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index d1e7ead..b5c9a15 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -89,7 +89,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From 1b730251cc43a9298a8dbf37eb148c75126a8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:11 +0000
Subject: [PATCH 50/72] fix: paginated members and parents of a DTS collection
 have a length

---
 MyCapytain/resources/collections/dts/_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index b5c9a15..ce5a3a0 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -52,6 +52,9 @@ class PaginatedProxy:
     def __iter__(self):
         return iter(self._run())
 
+    def __len__(self):
+        return len(self._run())
+
     def __getitem__(self, item):
         if isinstance(self._proxied, (list, dict, set, tuple)):
             # If it is in, we do not update the object
-- 
2.43.0


From 8612f6354744a723ef2236d4ec2637c44c7c3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 51/72] fix: retrieved metadata of a DTS collection are not
 asked again

---
 MyCapytain/resources/collections/dts/_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index ce5a3a0..9109390 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -184,6 +184,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     "The contacted endpoint seems to not have any data about collection %s " % self.id
                 )
             self._parse_metadata(expand(data)[0])
+            self._parsed["metadata"] = True
         return True
 
     @classmethod
-- 
2.43.0


From 14794cf8dc18507f699748f2fa5f68efdc92f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 52/72] fix: a DTS collection can be parsed with its parents as
 members

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..e4ab733 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From 69998db06f5d10a51a9b038b0566cd79c78582b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:03 +0000
Subject: [PATCH 53/72] fix: a known parent of a DTS collection is not listed
 twice once its parents are loaded

---
 MyCapytain/resources/collections/dts/_resolver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 9109390..8048ff3 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -137,11 +137,14 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
-                self.parents.update({
+                parents = getattr(self._parents, "_proxied", self._parents)
+                known = {parent.id for parent in parents}
+                parents.update({
                     o
                     for o in type(self).parse_member(
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
+                    if o.id not in known
                 })
             self._last_page_parsed[direction] = page
 
-- 
2.43.0


From dd84bd5f5b4e68e1bdda9454590f09bd3ecc6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:07 +0000
Subject: [PATCH 54/72] fix: a citation added to a set takes the root of the
 set, as one assigned to it does

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 3bb5365..39994c8 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -63,7 +63,7 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
-            self._children.append(child)
+            self.children = self.children + [child]
 
     def __iter__(self):
         """ Iteration method
-- 
2.43.0


From 507553e17d24fbc0d6ea18582f99411c5a4480b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:49 +0000
Subject: [PATCH 55/72] fix: comparing two equal nested DTS citations ends (it
 recursed for ever)

---
 MyCapytain/common/reference/_dts_1.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index a0fbd41..e21783a 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -73,10 +73,19 @@ class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
         super(DtsCitation, self).__init__(name=name, children=children, root=root)
 
-    def __eq__(self, other):
+    def _same_structure(self, other) -> bool:
+        """ Check that two citations have the same name and the same children, wherever they are
+        """
         return isinstance(other, BaseCitation) and \
             self.name == other.name and \
-            self.children == other.children and \
+            len(self.children) == len(other.children) and \
+            all(
+                DtsCitation._same_structure(mine, theirs)
+                for mine, theirs in zip(self.children, other.children)
+            )
+
+    def __eq__(self, other):
+        return DtsCitation._same_structure(self, other) and \
                (
                    (
                        not self.is_root() and
-- 
2.43.0


From b2c06b6edb2246c27d0f26abd0aba45cb121fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:10 +0000
Subject: [PATCH 56/72] fix: collections can be exported to JSON-LD and RDF/XML

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 0b0a2a2..81f23cf 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -430,7 +430,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 31483c2300058b377a1a60a6bba5e80007834771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:22 +0000
Subject: [PATCH 57/72] fix: typed literals are written as JSON and read back
 in DTS records

---
 MyCapytain/common/utils/_json_ld.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 39b62a3..7693e8f 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -11,7 +11,11 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        python = value.toPython()
+        if value.datatype is None or type(python) in (bool, int, float):
+            return python
+        # JSON has no native representation of this value (eg. dates)
+        return {"@value": str(value), "@type": str(value.datatype)}
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
@@ -24,6 +28,8 @@ def dict_to_literal(dict_container: dict):
     an RDFLib object"""
     if "@id" in dict_container:
         return URIRef(dict_container["@id"]),
+    elif "@type" in dict_container:
+        return Literal(dict_container["@value"], datatype=URIRef(dict_container["@type"])),
     elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From 9d87309520e57a1ea99643d0905965cbf7d63758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 58/72] fix: every prefix of a DTS record is bound in its
 context

---
 MyCapytain/resources/prototypes/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 81f23cf..7e8eec4 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -347,7 +347,7 @@ class Collection(Exportable):
                 nsm["dct"] = DCTERMS
 
             else:
-                nsm = namespace_manager.namespaces()
+                nsm = dict(namespace_manager.namespaces())
 
             # Set-up a derived graph
             store = Subgraph(nsm)
@@ -363,6 +363,11 @@ class Collection(Exportable):
                 prefix, namespace, name = nsm.compute_qname(predicate)
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
+            # Types of the collection and of its members, as well as Hydra terms, are written as prefixed names
+            for term in {RDF_NAMESPACES.HYDRA.title, self.type}.union(member.type for member in self.members):
+                prefix, namespace, name = nsm.compute_qname(term)
+                if prefix:
+                    bindings[prefix] = str(URIRef(namespace))
 
             # Builds the specific Store data
             extensions = {}
-- 
2.43.0


From cb48c25409102125a79c3acd56ee07cd6a582406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 59/72] fix: a collection without label is titled by its
 identifier in DTS records

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7e8eec4..b467ed9 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -310,10 +310,11 @@ class Collection(Exportable):
         :return: Dict
         """
 
+        label = obj.get_label()
         o = {
             "@id": str(obj.asNode()),
             "@type": nsm.qname(obj.type),
-            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(obj.get_label()),
+            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(label if label is not None else obj.id),
             nsm.qname(RDF_NAMESPACES.HYDRA.totalItems): obj.size
         }
 
-- 
2.43.0


From 5e13c3b8c7f995a29bec4ee5325b23a3b9ed54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:59 +0000
Subject: [PATCH 60/72] fix: a citation scheme of one level is written in DTS
 records

---
 MyCapytain/resources/prototypes/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index b467ed9..52cb0d6 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -13,6 +13,7 @@ from MyCapytain.common.utils import literal_to_dict, Subgraph
 from MyCapytain.common.constants import RDF_NAMESPACES, RDFLIB_MAPPING, Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
 from MyCapytain.common.reference import BaseCitationSet
+from MyCapytain.common.reference._base import BaseCitation
 from rdflib import URIRef, RDF, Literal, Graph, RDFS
 from rdflib.namespace import SKOS, DC, DCTERMS
 from typing import List
@@ -423,7 +424,9 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                # A citation without children is a structure of its own as long as it is set, a set is not
+                if not self.citation.is_empty() or \
+                        (isinstance(self.citation, BaseCitation) and self.citation.is_set()):
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From 289fb751aa5f590fbf10eb842d53b3f17adce1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 61/72] fix: nested dictionaries of remote texts and passages
 hold the passages of the deepest level

---
 MyCapytain/resources/texts/remote/cts.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 13cf7fa..0ecbf54 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -410,6 +410,19 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
     def id(self):
         return str(self.urn.reference)
 
+    def _leafReffs(self):
+        """ References of the deepest level of the citation scheme available in the passage
+
+        :return: References of the deepest level
+        """
+        if not self.citation.is_set():
+            self.getLabel()
+        level = len(self.citation)
+        reference = self.urn.reference
+        if reference and not reference.is_range() and reference.depth == level:
+            return [reference]
+        return self.getValidReff(level=level)
+
     @property
     def prevId(self):
         """ Previous passage Identifier
-- 
2.43.0


From 322e6d98f735b5253c431f57924ad9336dc2843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:48 +0000
Subject: [PATCH 62/72] fix: a citation's xpath is filled with values which
 hold a backslash

---
 MyCapytain/common/reference/_capitains_cts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 2f095d4..da55f59 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -851,7 +851,9 @@ class Citation(BaseCitation):
 
             replacement = r"\1"
             if isinstance(passage, str):
-                replacement = r"\1\2'" + passage + "'"
+                # A function, as a backslash has a meaning in replacement strings
+                def replacement(match):
+                    return match.group(1) + match.group(2) + "'" + passage + "'"
 
             return REFERENCE_REPLACER.sub(replacement, xpath)
         else:
-- 
2.43.0


From 1d7ee76d2f911c8d0908805a9ce8aad2748e0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:11 +0000
Subject: [PATCH 63/72] fix: text parsed from strings and files keeps its white
 space

---
 MyCapytain/common/utils/xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index c877824..ef7a307 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -5,7 +5,7 @@ from xml.sax.saxutils import escape
 
 from lxml.etree import SubElement
 import lxml.etree as etree
-from lxml.objectify import ObjectifiedElement, parse, Element
+from lxml.objectify import ObjectifiedElement, parse, makeparser, Element
 from six import text_type
 
 from MyCapytain.common.constants import XPATH_NAMESPACES
@@ -23,6 +23,8 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+# lxml.objectify leaves out blank text by default, words would run together
+_objectify_parser = makeparser(remove_blank_text=False)
 _encoding_declaration = re.compile(r"""^(\s*<\?xml\s[^>]*?)\s+encoding\s*=\s*("[^"]*"|'[^']*')""")
 
 
@@ -104,7 +106,7 @@ def xmlparser(xml, objectify=True):
     if objectify is False:
         parsed = etree.parse(xml).getroot()
     else:
-        parsed = parse(xml).getroot()
+        parsed = parse(xml, parser=_objectify_parser).getroot()
     if doclose:
         xml.close()
     return parsed
-- 
2.43.0


From 7369e792b3065f0631b91de132993cb3c44961e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:08 +0000
Subject: [PATCH 64/72] fix: repositories hold files in any encoding they
 declare

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 7258029..c66274c 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with io.open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -341,7 +341,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From 7b7dd6ee0bd8502e482891a52546cb42138cbe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:22 +0000
Subject: [PATCH 65/72] fix: passages with subreferences have neighbours

---
 MyCapytain/resources/texts/local/capitains/cts.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index c15fe3b..0b423be 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -46,6 +46,15 @@ def _make_passage_kwargs(urn, reference):
     return kwargs
 
 
+def _unit(passage_id):
+    """ Identifier of the unit of the text in which a passage identifier lies, without its subreference
+
+    :param passage_id: Start or end of a reference
+    :return: Identifier of the unit
+    """
+    return ".".join(passage_id.list)
+
+
 class _SharedMethods(TeiResource):
     """ Set of shared methods between objects in local TEI. Avoid recoding functions
     """
@@ -439,7 +448,7 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         if self.reference.is_range():
             range_length = len(self.getReffs())
 
-        start = document_references.index(self.reference.start)
+        start = document_references.index(_unit(self.reference.start))
 
         if start == 0:
             # If the passage is already at the beginning
@@ -652,8 +661,8 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         else:
             start = end = self.reference.start
 
-        start = document_references.index(start)
-        end = document_references.index(end)
+        start = document_references.index(_unit(start))
+        end = document_references.index(_unit(end))
         range_length = end - start + 1
 
         if start == 0:
-- 
2.43.0


From 23b267e83099714397778cf76d5eb6789eb86cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:39 +0000
Subject: [PATCH 66/72] fix: DTS documents are read in the encoding they
 declare

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 2a4a63c..ab4e5d2 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import TYPE_CHECKING, Optional
 import link_header
 from urllib.parse import parse_qs, urlparse
@@ -80,11 +81,17 @@ class DtsResolverDocument(TeiResource):
 
     @classmethod
     def parse(cls, identifier: str, reference: DtsReference, resolver: "HttpDtsResolver", response: "Response"):
+        if "charset" in response.headers.get("Content-Type", "").lower():
+            content = response.text
+        else:
+            # The document says its encoding : it should not be guessed from its text
+            content = BytesIO(response.content)
+
         o = cls(
             identifier=identifier,
             reference=reference,
             resolver=resolver,
-            resource=xmlparser(response.text)
+            resource=xmlparser(content)
         )
 
         links = link_header.parse(response.headers.get("Link", ""))
-- 
2.43.0


From aba2f2d4c84af8ddc7391ef08146a3d37c330667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:58 +0000
Subject: [PATCH 67/72] fix: CTS replies in text/xml without charset are read
 as UTF-8

---
 MyCapytain/retrievers/cts5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index ac35030..929cfe4 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -55,6 +55,9 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
         request.raise_for_status()
         if request.encoding is None:
             request.encoding = "utf-8"
+        elif request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower():
+            # What requests takes text/xml for when the server does not say
+            request.encoding = "utf-8"
         return request.text
 
     def getCapabilities(self, inventory=None, urn=None):
-- 
2.43.0


From d939065edef6a4fe170ecb3595b2e722050aa210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:51 +0000
Subject: [PATCH 68/72] fix: structured metadata reading true or false is kept
 as text, not turned into a number

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 024e514..a25318b 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -11,7 +11,7 @@ from __future__ import unicode_literals
 
 from rdflib import URIRef, Literal
 from rdflib.namespace import XSD
-from lxml.objectify import IntElement, FloatElement
+from lxml.objectify import BoolElement, IntElement, FloatElement
 
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
@@ -129,7 +129,7 @@ def _parse_structured_metadata(obj, xml):
                     if not datatype.startswith("http") and ":" in datatype:
                         datatype = expand_namespace(metadata.nsmap, datatype)
                     obj.metadata.add(tag, Literal(s_m, datatype=URIRef(datatype)))
-                elif isinstance(metadata, IntElement):
+                elif isinstance(metadata, IntElement) and not isinstance(metadata, BoolElement):
                     obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))
                 elif isinstance(metadata, FloatElement):
                     obj.metadata.add(tag, Literal(float(metadata), datatype=XSD.float))
-- 
2.43.0


From 1fb6a4b4b278f3a6951bcc664c39ccb12850113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:07 +0000
Subject: [PATCH 69/72] fix: texts are found by URN objects as by their text in
 the local resolver

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index c66274c..5c27791 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -384,7 +384,7 @@ class CtsCapitainsLocalResolver(Resolver):
             for text in self.texts
             if
             (lang is None or (lang is not None and lang == text.lang)) and
-            (urn is None or (urn is not None and text.urn.upTo(__PART) == urn)) and
+            (urn is None or (urn is not None and text.urn.upTo(__PART) == str(urn))) and
             (text.citation is not None) and
             (
                 category not in ["edition", "translation", "commentary"] or
-- 
2.43.0


From 42de3ca672d645bd8aaa177e136b7d7c58f1a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:01 +0000
Subject: [PATCH 70/72] fix: folders are read whatever characters their names
 hold

---
 MyCapytain/resolvers/cts/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 5c27791..acad17a 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,7 +4,7 @@
 import io
 import logging
 import os.path
-from glob import glob
+from glob import glob, escape
 from math import ceil
 
 from MyCapytain.common.reference._capitains_cts import CtsReference, URN
@@ -284,14 +284,14 @@ class CtsCapitainsLocalResolver(Resolver):
         invalids = []
 
         for folder in resource:
-            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
+            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
                 parsed = self._parse_textgroup_wrapper(cts_file)
                 if parsed is not None:
                     textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
-            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
+            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=escape(os.path.dirname(cts_textgroup_file))))
 
             for cts_work_file in cts_work_files:
                 parsed = self._parse_work_wrapper(cts_work_file, textgroup)
-- 
2.43.0


From 58ac219c18b0d2fc6d3ab4897b2fe2323a4ed37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:42 +0000
Subject: [PATCH 71/72] fix: a text is described by an inventory entry without
 citation scheme

---
 MyCapytain/resources/prototypes/cts/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/text.py b/MyCapytain/resources/prototypes/cts/text.py
index 0584a19..1fd5219 100644
--- a/MyCapytain/resources/prototypes/cts/text.py
+++ b/MyCapytain/resources/prototypes/cts/text.py
@@ -119,7 +119,7 @@ class PrototypeCtsNode(InteractiveTextualNode):
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=str(node))
             self.set_description(str(node), lang)
 
-        if not self.citation.is_set() and edition.citation.is_set():
+        if not self.citation.is_set() and edition.citation is not None and edition.citation.is_set():
             self.citation = edition.citation
 
 
-- 
2.43.0


From 48376f57f347d092869a883aefd206c4c7399299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:57 +0000
Subject: [PATCH 72/72] fix: simple passages list references below a reference
 given as text

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 0b423be..b2436a0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -400,6 +400,8 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         level += self.depth
         if not subreference:
             subreference = self.reference
+        elif not isinstance(subreference, CtsReference):
+            subreference = CtsReference(subreference)
         return self.textObject.getValidReff(level, reference=subreference)
 
     def getTextualNode(self, subreference: CtsReference=None):
-- 
2.43.0

