From 0714a7a7cf0c33b2da3aa8921558d88564dbff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 01/18] fix: JSON pointer evaluation accepted malformed indices
 on JSON arrays

---
 jschon/jsonpointer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..8a4bfac 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,13 +207,13 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-            except (KeyError, IndexError):
+            except (KeyError, IndexError, ValueError):
                 pass
 
             raise self.reference_exc(f"Path '{self}' not found in document")
-- 
2.43.0


From e2132dd5622f5fb4a011ae956fea483785957440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 02/18] fix: JSON patch accepted malformed array indices and
 mishandled scalar parents

---
 jschon/jsonpatch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..5d07b53 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,8 +205,10 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
@@ -224,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From 812bb2e5b10a7c25aec12b5d10a8ea2a5e15508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 03/18] fix: JSON patch move into a child of the source
 location must fail

---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 5d07b53..aae67c6 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -298,6 +298,9 @@ def move(
     except JSONPointerError as e:
         raise JSONPatchError(f'Cannot move from nonexistent location {from_}') from e
 
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} into one of its children')
+
     document = remove(document, from_)
     return add(document, path, value)
 
-- 
2.43.0


From 369d643adcaaefc9f3b2a2125841a0a00ad05213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 04/18] fix: in-place JSON add accepted malformed array indices

---
 jschon/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..055e58b 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -356,6 +356,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
+                if target_key != '-' and not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
                 if target_key == '-' or int(target_key) == len(target_parent):
                     target_index = len(target_parent)
                 elif 0 <= int(target_key) < len(target_parent):
-- 
2.43.0


From c35360118d56efb844c932bebf351428de74ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 05/18] fix: negative and out-of-range array indices corrupted
 JSON item keys and paths

---
 jschon/json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 055e58b..1886814 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +253,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +267,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        index, _, _ = slice(index, None).indices(len(self.data))
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From 69969bd278cd481389c685e41e0c04362bc3f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 06/18] fix: annotations of a failed subschema were collected
 through "not"

---
 jschon/vocabulary/applicator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..6c958fa 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,8 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            # drop the annotations of a failed subschema
+            result.children.clear()
 
 
 class IfKeyword(Keyword, Subschema):
-- 
2.43.0


From 6d55b3de5ca207cf025f04c280fa4d88a2d1f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 07/18] fix: multipleOf was inexact beyond the default decimal
 precision

---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..2f06dc6 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From 332e4149a3613681d3eae981fda0c4b7840d11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 08/18] fix: boolean "items" (2019-09) did not mark the items
 as evaluated

---
 jschon/vocabulary/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..8981a9e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -63,6 +63,8 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
 
         elif isinstance(self.json.data, bool):
             self.json.evaluate(instance, result)
+            if result.passed:
+                result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
-- 
2.43.0


From 0097cbfb4fd94e932a30d38ac4d4ea181d552a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 09/18] fix: "$id" with an empty fragment could not be
 referenced

---
 jschon/vocabulary/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..706c817 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -70,6 +70,7 @@ class IdKeyword(Keyword):
         super().__init__(parentschema, value)
 
         (uri := URI(value)).validate(allow_non_empty_fragment=False)
+        uri = uri.copy(fragment=False)
         if not uri.is_absolute():
             if (base_uri := parentschema.base_uri) is not None:
                 uri = uri.resolve(base_uri)
-- 
2.43.0


From a7c5acda960ab97dc99e23023d7642610d66c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 10/18] fix: hierarchical output includes the evaluation of
 referenced schemas

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..995e8cc 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -129,7 +129,7 @@ def verbose(result: Result) -> JSONCompatible:
 @output_formatter('hierarchical')
 def hierarchical(result: Result) -> JSONCompatible:
     def visit(node: Result):
-        if isinstance(node.schema_node, JSONSchema):
+        if node._refschema is not None or isinstance(node.schema_node, JSONSchema):
             output = {
                 "valid": (valid := node.valid),
                 "evaluationPath": str(node.path),
-- 
2.43.0


From c55e35dc73faf92cdb4b1bf8ef2c71c67abb3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 11/18] fix: pass the instance's JSON-compatible value to
 format validators

A validator for array or object instances was handed the internal list or
dict of JSON nodes instead of a JSON-compatible Python object.
---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 2921183..17bfce8 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -25,7 +25,7 @@ class FormatKeyword(Keyword):
         result.annotate(self.json.value)
         if self.validator and instance.type in self.validates_types:
             try:
-                self.validator(instance.data)
+                self.validator(instance.value)
             except ValueError as e:
                 result.fail(f'The instance is invalid against the "{self.json.data}" format: {e}')
         else:
-- 
2.43.0


From 3a5d88b3c4e38584399b757757bf1fad76a8e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 12/18] fix: "$dynamicRef" to a boolean schema raised TypeError

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 706c817..7baf516 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -140,7 +140,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if self.refschema.type == "object" and \
+                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From d653b4721d60feb7b22a23d258a636f2b10c5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 13/18] fix: a context-managed cache that is still empty counts
 as in use

---
 jschon/catalog/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..f26b7f5 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -385,6 +385,8 @@ class Catalog:
         if cacheid in self._schema_cache:
             raise CatalogError("cache identifier is already in use")
 
+        self._schema_cache[cacheid] = {}
+
         try:
             yield cacheid
         finally:
-- 
2.43.0


From 112d7be6d0eb584f3aead3feff67d08666f3dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 14/18] fix: changing a schema's URI removed the cache entry of
 another schema

---
 jschon/jsonschema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..170f920 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -308,7 +308,10 @@ class JSONSchema(JSON):
     def uri(self, value: Optional[URI]) -> None:
         if self._uri != value:
             if self._uri is not None:
-                self.catalog.del_schema(self._uri, cacheid=self.cacheid)
+                # leave an entry that another schema has since taken over
+                cache = self.catalog._schema_cache.get(self.cacheid, {})
+                if cache.get(self._uri) is self:
+                    self.catalog.del_schema(self._uri, cacheid=self.cacheid)
 
             self._uri = value
 
-- 
2.43.0


From 7ad48f3545e95e2bacfb76b086322f60f8228f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 15/18] fix: unknown keyword names "", with NUL or surrogates
 could not be used in a schema

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..f5252e3 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -100,7 +100,7 @@ class Metaschema(JSONSchema):
             return self.kwclasses[key]
         except KeyError:
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                'UnknownKeyword',  # not every key can be part of a class name
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From ad6b0f667f0ab0ffc56108bdd329f48466a03c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/18] fix: a metaschema with an unrecognized core vocabulary
 raises JSONSchemaError, as documented

---
 jschon/vocabulary/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index f5252e3..e0e6071 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -4,7 +4,7 @@ import inspect
 import re
 from typing import Any, Dict, Mapping, Optional, Sequence, TYPE_CHECKING, Tuple, Type
 
-from jschon.exc import JSONSchemaError
+from jschon.exc import CatalogError, JSONSchemaError
 from jschon.json import JSON, JSONCompatible
 from jschon.jsonschema import JSONSchema, Result
 from jschon.uri import URI
@@ -69,7 +69,10 @@ class Metaschema(JSONSchema):
                 vocabularies,
             ))
             if len(possible_cores) == 1:
-                self.core_vocabulary = catalog.get_vocabulary(URI(possible_cores[0]))
+                try:
+                    self.core_vocabulary = catalog.get_vocabulary(URI(possible_cores[0]))
+                except CatalogError as e:
+                    raise JSONSchemaError(f"Unrecognized core vocabulary '{possible_cores[0]}'") from e
             else:
                 raise JSONSchemaError(
                     'Cannot determine unique known core vocabulary from '
-- 
2.43.0


From 20ceab9d4b10e46fc442b047b4eeffa124dc9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 17/18] fix: an invalid metaschema without "$schema" raised
 KeyError instead of CatalogError

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index f26b7f5..290ffb8 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -233,7 +233,7 @@ class Catalog:
         if not metaschema.validate().valid:
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+                f'"{metaschema.metaschema_uri}"'
             )
         return metaschema
 
-- 
2.43.0


From ccd8c64019e6afcee315910d43a2d7abbcf476b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 18/18] fix: "$dynamicRef" missed an outermost dynamic anchor
 whose resource is re-entered

---
 jschon/vocabulary/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 7baf516..b59de03 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -149,11 +149,9 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
 
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
+                if (base_uri := target.schema.base_uri) is not None:
                     target_uri = URI(f"#{self.fragment}").resolve(base_uri)
                     try:
                         found_schema = self.parentschema.catalog.get_schema(
-- 
2.43.0

