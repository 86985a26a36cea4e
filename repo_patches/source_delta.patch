From 3cfc2ee39c099945da2ee0d90f1f2a308d8cf475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:40 +0000
Subject: [PATCH 01/71] fix: merging findings no longer turns a non-blocking
 finding into a blocking one

---
 src/error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..1e96c3f 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,9 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            codes = issues._stop_proceeding.get(other_location)
+            if codes:
+                self._stop_proceeding[new_location].update(codes)
 
     def add(
         self,
-- 
2.43.0


From 8ede8cbb9a3de9a0205873a225ef25cfef5a5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 02/71] fix: pop removes every finding with the given code at
 the location

---
 src/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 1e96c3f..deafc95 100644
--- a/src/error.py
+++ b/src/error.py
@@ -349,7 +349,7 @@ class ValidationIssues:
 
         popped = self.get(location)
 
-        for issue in self._issues[location]:
+        for issue in list(self._issues[location]):
             if issue.code == code:
                 self._issues[location].remove(issue)
                 if issue.code in self._stop_proceeding.get(location, set()):
-- 
2.43.0


From bd4eb7e576480e5db3cd1c8f303e225d033639de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:43 +0000
Subject: [PATCH 03/71] fix: binding an attribute to a schema keeps its
 description and canonical value validation

---
 src/data/schemas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..f8ebbaa 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,12 +182,14 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr._validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 6f8eedbec7181578d143ad331567af378c4ad004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:45 +0000
Subject: [PATCH 04/71] fix: search request with excluded attributes only gets
 its presence checker

---
 src/assets/schemas/search_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..9b7c1c6 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
-- 
2.43.0


From 543b70e704e92f39e2f8f3c1493c7e502b04dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 05/71] fix: search request honours sortOrder

---
 src/assets/schemas/search_request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 9b7c1c6..1e5ee5e 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -138,8 +138,8 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
-                data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
-                )
+                sort_order_ = data[self.attrs.sortorder.rep]
+                asc = not (isinstance(sort_order_, str) and sort_order_.lower() == "descending")
+                data[AttrRep(attr="sorter")] = Sorter(attr_rep=sort_by_, asc=asc)
 
         return data, issues
-- 
2.43.0


From 160f96698ff31b053506b7a6ae77e1bff11afd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 06/71] fix: infinite and not-a-number floats are reported as
 non-integers instead of raising

---
 src/data/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..a70e818 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
-- 
2.43.0


From 381dd47d71627c4263dbaf44d0077383fc5a5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:52 +0000
Subject: [PATCH 07/71] fix: boolean values are not accepted as numbers

---
 src/data/type.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index a70e818..1743527 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -9,6 +9,12 @@ from ..error import ValidationError, ValidationIssues
 from .container import Invalid, SCIMDataContainer
 
 
+def _is_instance(value: t.Any, type_: t.Type) -> bool:
+    if type_ is int and isinstance(value, bool):
+        return False
+    return isinstance(value, type_)
+
+
 class AttributeType(abc.ABC):
     PARSE_TYPE: t.Type
     DUMP_TYPE: t.Type
@@ -19,7 +25,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not _is_instance(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +38,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not _is_instance(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
-- 
2.43.0


From 27e77dfa6edafa4245ca7230377cc9438ca34daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:55 +0000
Subject: [PATCH 08/71] fix: non-ASCII binary values are reported instead of
 raising

---
 src/data/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 1743527..4527d7b 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -1,6 +1,5 @@
 import abc
 import base64
-import binascii
 import typing as t
 from datetime import datetime
 from urllib.parse import urlparse
@@ -155,7 +154,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except ValueError:
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 8217cac364c81a00d26d7f317d9312a6bda99443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 09/71] fix: schemas field validation tolerates invalid items

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index f8ebbaa..287fc9a 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -284,7 +284,7 @@ def validate_schemas_field(
 ) -> ValidationIssues:
     issues = ValidationIssues()
     main_schema = main_schema.lower()
-    schemas_ = [item.lower() for item in schemas_]
+    schemas_ = [item.lower() for item in schemas_ if isinstance(item, str)]
     known_schemas = [item.lower() for item in known_schemas]
     main_schema_included = False
     mismatch = False
-- 
2.43.0


From 7aab25fb421dc336d94703a328e67a73c07d1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 10/71] fix: authentication scheme documentation URI is named
 documentationUri

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From d0ac91320c4cb277dc4ba6be4766115a028c1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 11/71] fix: container equality is symmetric

---
 src/data/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..e9e786e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -271,8 +271,11 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
+        for key, original in self._lower_case_to_original.items():
+            if self._data[original] != other._data[other._lower_case_to_original[key]]:
                 return False
 
         return True
-- 
2.43.0


From 2fa94f66f62f7997947b33e36aa13bcff8d06d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:03 +0000
Subject: [PATCH 12/71] fix: assigning a container attribute in different
 letter case replaces the existing entry

---
 src/data/container.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index e9e786e..cec2c6e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -144,9 +144,10 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+                self._data[extension_key] = SCIMDataContainer()
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
@@ -173,8 +174,10 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            initial_key = self._lower_case_to_original.setdefault(
+                attr_rep.attr.lower(), attr_rep.attr
+            )
+            self._data[initial_key] = value
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
-- 
2.43.0


From f0a070b823b414f88fd354e7b7cdda204620219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 13/71] fix: non-complex items of a multi-valued attribute have
 no sub-attributes

---
 src/data/container.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index cec2c6e..a738bc2 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -196,7 +196,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
-- 
2.43.0


From e5c726eda90f2a173ea0e9848a10690bb738142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 14/71] fix: duplicated schema extension is detected regardless
 of letter case

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 287fc9a..0dd8257 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From 54c73d14e1e3d8c4575fdcf0fbee4ab1cc4451fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:10 +0000
Subject: [PATCH 15/71] fix: bulk operation method is case sensitive

---
 src/assets/schemas/bulk_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..25a8d37 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -80,6 +80,7 @@ _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
+    case_exact=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
 )
-- 
2.43.0


From 6d70a0b5aa66cf7cd768b0a2dbb4e4aa385f19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:13 +0000
Subject: [PATCH 16/71] fix: PATCH operation name is case sensitive

---
 src/assets/schemas/patch_op.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..9f518e3 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -10,6 +10,7 @@ from src.error import ValidationError, ValidationIssues
 _operations_op = Attribute(
     name="op",
     type_=at.String,
+    case_exact=True,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
-- 
2.43.0


From b3c35d3ee1fd5c234e5e43ab20d9cd5c757a2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:15 +0000
Subject: [PATCH 17/71] fix: conjunction does not match when an operand refers
 to an unknown attribute

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..4f9e8a1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -120,7 +120,7 @@ class And(MultiOperandLogicalOperator):
         value = value or {}
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
-- 
2.43.0


From 39b90e56a0682b74a517faf90102133fc0ad4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:17 +0000
Subject: [PATCH 18/71] fix: presence operator works with multi-valued complex
 attributes

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4f9e8a1..02777e5 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([item["value"] for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From d502b9ae2dfbf3d4222ebc76021ba86e12922731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:20 +0000
Subject: [PATCH 19/71] fix: error response status must be at least 300

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..37d4566 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From 4017a24dccbcf7b0109d9670ba7925c7b7bc14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:22 +0000
Subject: [PATCH 20/71] fix: non-finite comparison values are reported as bad
 values

---
 src/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..2d43cb2 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import Any, Optional
 
@@ -33,6 +34,8 @@ def parse_comparison_value(value: str) -> Any:
         value = None
     else:
         parsed = float(value)
+        if not math.isfinite(parsed):
+            raise ValueError(f"{value!r} is not a finite number")
         parsed_int = int(parsed)
         if parsed == parsed_int:
             value = parsed_int
-- 
2.43.0


From 020fa56ee16598a2ce55e0111bb558bd71a7807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:23 +0000
Subject: [PATCH 21/71] fix: bulk request with a bad body or operations is
 reported instead of raising

---
 src/request_validators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 37d4566..6589ddc 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -975,11 +975,14 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return RequestData(headers=headers, query_string=query_string, body=None), issues
+
         issues.merge(
             issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
             location=body_location,
         )
-        if not issues_.can_proceed(
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -996,7 +999,7 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
                 if method == "DELETE":
                     continue
-- 
2.43.0


From c22a316b58d5afd0f8129d386ef5a3833507947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:26 +0000
Subject: [PATCH 22/71] fix: bulk response with a bad body is reported instead
 of raising

---
 src/request_validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 6589ddc..1245bff 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1045,6 +1045,9 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return ResponseData(headers=headers, body=None), issues
+
         issues.merge(
             issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
             location=body_location,
-- 
2.43.0


From 1aa30e474f26839abf929bf5b573fe6518fbd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 23/71] fix: presence check skips invalid items of a
 multi-valued attribute

---
 src/attributes_presence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..04b3938 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -84,6 +84,9 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if item is Invalid:
+                            continue
+
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
-- 
2.43.0


From 5a8684ec66bf03186154b699bcd68f6ad61a991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 24/71] fix: PATCH operation without path and with bad value is
 reported instead of raising

---
 src/assets/schemas/patch_op.py | 2 ++
 src/request_validators.py      | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 9f518e3..26d136e 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -184,6 +184,8 @@ class PatchOp(BaseSchema):
     ) -> Tuple[Any, ValidationIssues]:
         if path in [None, Missing]:
             value, issues = self._resource_schema.parse(value)
+            if value is Invalid:
+                return value, issues
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
diff --git a/src/request_validators.py b/src/request_validators.py
index 1245bff..691e0f0 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -846,6 +846,9 @@ class ResourceObjectPATCH(Validator):
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
+
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -874,7 +877,11 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (
+            isinstance(attr, ComplexAttribute)
+            and attr.multi_valued
+            and isinstance(value, List)
+        ):
             return
 
         # checking if new item of complex attribute has all required fields
-- 
2.43.0


From 3a233097f9bbaedfe14a0bcac89eb16828192858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 25/71] fix: read-only sub-attribute in a PATCH value is
 reported at that sub-attribute

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 26d136e..ebe61c0 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -245,7 +245,7 @@ class PatchOp(BaseSchema):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=(sub_attr.rep.attr,),
                     )
         return parsed_attr_value, issues
 
-- 
2.43.0


From 9ef0ffae537d9d9385f27ce4b5979d19c894a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:33 +0000
Subject: [PATCH 26/71] fix: response headers that are not a mapping are
 reported instead of raising

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 691e0f0..004e340 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
-- 
2.43.0


From 2ce7f7e49e531b7dabc6dbf569b13b6bc375d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 27/71] fix: pagination query parameters of unsupported types
 are reported instead of raising

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 004e340..3a0e2a5 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -596,7 +596,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -607,7 +607,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From 603757e0365800f3095728a85e7565db953cd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 28/71] fix: bad query string type is reported with the actual
 type

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 3a0e2a5..8797992 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -562,7 +562,7 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(dict.__name__, type(query_string).__name__),
             proceed=False,
             location=query_string_location,
         )
-- 
2.43.0


From 3eb681f1aa6205e0e91854e5ae666243f84c87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:40 +0000
Subject: [PATCH 29/71] fix: sorting tolerates empty multi-valued attributes

---
 src/sorter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..06c3a20 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -3,7 +3,7 @@ from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
 from src.data.attributes import Attribute, ComplexAttribute
-from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
+from src.data.container import AttrRep, Invalid, SCIMDataContainer
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
@@ -106,7 +106,7 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if item_value and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
-- 
2.43.0


From 2ff7a087f10dae36fc9e5b048b42c36004915924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 30/71] fix: attribute representation validates its
 sub-attribute name

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index a738bc2..e80bc46 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,7 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:\w+|\$ref))?)")
 
 
 class AttrRep:
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if not _ATTR_REP.fullmatch(attr_):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From f4ecb5390bca50bb0883d95fc2f27448249fe0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:36 +0000
Subject: [PATCH 31/71] fix: unknown target of a PATCH remove operation is
 reported at its path

---
 src/assets/schemas/patch_op.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index ebe61c0..57e70e9 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -120,12 +120,13 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
-        issues = validate_operation_path(self._resource_schema, path)
+        issues = ValidationIssues()
+        path_location = (self.attrs.operations__path.rep.sub_attr,)
+        issues.merge(validate_operation_path(self._resource_schema, path), location=path_location)
         if issues.has_issues():
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
-        path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
             if attr.mutability == AttributeMutability.READ_ONLY:
                 issues.add(
-- 
2.43.0


From 973b66a7446806792dad46b4af067b7458827493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 32/71] fix: PATCH can not modify sub-attributes of a read-only
 attribute

---
 src/assets/schemas/patch_op.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 57e70e9..9171edb 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -128,7 +128,7 @@ class PatchOp(BaseSchema):
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if self._is_read_only(attr):
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -216,6 +216,13 @@ class PatchOp(BaseSchema):
             return self._parse_update_attr_value(path.complex_filter_attr_rep, value)
         return self._parse_update_attr_value(path.attr_rep, value)
 
+    def _is_read_only(self, attr: Attribute) -> bool:
+        top_attr = self._resource_schema.attrs.get(AttrRep(attr.rep.schema, attr.rep.attr))
+        return AttributeMutability.READ_ONLY in [
+            attr.mutability,
+            top_attr.mutability if top_attr is not None else None,
+        ]
+
     def _parse_update_attr_value(
         self, attr_rep: AttrRep, attr_value: Any
     ) -> Tuple[Any, ValidationIssues]:
@@ -225,7 +232,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if self._is_read_only(attr):
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
-- 
2.43.0


From db3e6a51cca7114cb5df72dbef8d7cbedf2cd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:40 +0000
Subject: [PATCH 33/71] fix: PATCH can not set read-only sub-attributes of
 multi-valued attribute items

---
 src/assets/schemas/patch_op.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 9171edb..6ba1e7b 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -243,18 +243,23 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif isinstance(attr, ComplexAttribute) and parsed_attr_value is not None:
+            if attr.multi_valued:
+                items = [((i,), item) for i, item in enumerate(parsed_attr_value)]
+            else:
+                items = [((), parsed_attr_value)]
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
                     continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
-                    issues.add(
-                        issue=ValidationError.attribute_can_not_be_modified(),
-                        proceed=False,
-                        location=(sub_attr.rep.attr,),
-                    )
+                for item_location, item in items:
+                    v = item[sub_attr.rep]
+                    if v is not Missing:
+                        issues.add(
+                            issue=ValidationError.attribute_can_not_be_modified(),
+                            proceed=False,
+                            location=item_location + (sub_attr.rep.attr,),
+                        )
         return parsed_attr_value, issues
 
 
-- 
2.43.0


From 64df00802b954106ec3dff6cc03b6d2ae2dc63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:06 +0000
Subject: [PATCH 34/71] fix: extension attributes are only read from the
 extension's namespace

---
 src/data/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/container.py b/src/data/container.py
index e80bc46..46faea8 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -186,6 +186,8 @@ class SCIMDataContainer:
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        if attr_rep.extension:
+            return Missing
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -213,6 +215,8 @@ class SCIMDataContainer:
         if extension is not None:
             del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
+        if attr_rep.extension:
+            return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
-- 
2.43.0


From 440dac052c00f18914f1c295b20a5130a01275a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:27 +0000
Subject: [PATCH 35/71] fix: an extension value that is not an object is
 reported instead of raising TypeError

---
 src/data/container.py |  5 ++++-
 src/data/schemas.py   | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 46faea8..7f2d501 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -185,6 +185,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
+            if not isinstance(self._data[extension], SCIMDataContainer):
+                return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
         if attr_rep.extension:
             return Missing
@@ -213,7 +215,8 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            if isinstance(self._data[extension], SCIMDataContainer):
+                del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
         if attr_rep.extension:
             return
diff --git a/src/data/schemas.py b/src/data/schemas.py
index 0dd8257..2875ce7 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -260,6 +260,16 @@ class BaseSchema(abc.ABC):
         issues = ValidationIssues()
         data = SCIMDataContainer(data)
         processed = SCIMDataContainer()
+        known_schemas = {item.lower(): item for item in self.schemas}
+        for k, v in data.to_dict().items():
+            if k.lower() in known_schemas and not (v is None or isinstance(v, dict)):
+                issues.add(
+                    issue=ValidationError.bad_type(
+                        get_scim_type(SCIMDataContainer), get_scim_type(type(v))
+                    ),
+                    proceed=False,
+                    location=(known_schemas[k.lower()],),
+                )
         for attr in self.attrs.top_level:
             value = data[attr.rep]
             if value is Missing:
-- 
2.43.0


From 0b97c5e5411cb7b70d1b927bfb0eae87ec9e35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:55 +0000
Subject: [PATCH 36/71] fix: container holds one entry for keys of the input
 that differ only in case

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 7f2d501..032227e 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,7 +123,7 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                self._lower_case_to_original[key.lower()] = key
+                key = self._lower_case_to_original.setdefault(key.lower(), key)
                 if isinstance(value, Dict):
                     self._data[key] = SCIMDataContainer(value)
                 elif isinstance(value, List):
-- 
2.43.0


From 1954e6be557e1c8175cee34d44e9835a770e04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:20 +0000
Subject: [PATCH 37/71] fix: a sub-attribute name can not contain a colon

---
 src/data/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 032227e..5f4f7fe 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr_):
+        if not _ATTR_REP.fullmatch(attr_) or (sub_attr and not _ATTR_NAME.fullmatch(sub_attr)):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
-- 
2.43.0


From dfa11508e86de7d314581bee267da56aaa8f6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:51 +0000
Subject: [PATCH 38/71] fix: presence findings about extension attributes are
 located under the extension

---
 src/attributes_presence.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 04b3938..31837ae 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -66,6 +66,9 @@ class AttributePresenceChecker:
         for attr in attrs:
             top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
             top_attr = attrs.get(top_attr_rep)
+            top_location = (attr.rep.attr,)
+            if attr.rep.extension:
+                top_location = (attr.rep.schema,) + top_location
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
@@ -80,7 +83,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=top_location + (attr.rep.sub_attr,),
                     )
                 else:
                     for i, item in enumerate(value):
@@ -98,16 +101,16 @@ class AttributePresenceChecker:
                                 attr=attr,
                                 attr_rep=attr.rep,
                             ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
+                            location=top_location + (i, attr.rep.sub_attr),
                         )
             else:
                 value = data[attr.rep]
                 if value is Invalid:
                     continue
 
-                attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
-                )
+                attr_location = top_location
+                if attr.rep.sub_attr:
+                    attr_location += (attr.rep.sub_attr,)
                 issues.merge(
                     issues=self._check_presence(
                         value=data[attr.rep],
-- 
2.43.0


From 82eec101c953ea4a8687fb3841bd841860292c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:53 +0000
Subject: [PATCH 39/71] fix: presence of an extension's sub-attributes is not
 judged from a core attribute of the same name

---
 src/attributes_presence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 31837ae..a1239ae 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,9 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
             top_location = (attr.rep.attr,)
             if attr.rep.extension:
-- 
2.43.0


From 490cfb3f9882269747f5740937bdf33b494c7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:47 +0000
Subject: [PATCH 40/71] fix: sorting treats zero and false as values

---
 src/sorter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 06c3a20..c6b3322 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -69,7 +69,7 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
+        if not any(self._has_value(item[self._attr_rep]) for item in data):
             return data
 
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
@@ -82,8 +82,12 @@ class Sorter:
 
         return sorted(data, key=key, reverse=not self._asc)
 
+    @staticmethod
+    def _has_value(value: Any) -> bool:
+        return bool(value) or isinstance(value, (int, float))
+
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if not self._has_value(value) or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
-- 
2.43.0


From 1d23c0496ee1a13697f0555de6e868be59c7373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:59 +0000
Subject: [PATCH 41/71] fix: PATCH path with a logical expression around a
 filter is reported instead of raising

---
 src/data/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..26b8b6c 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -92,6 +92,10 @@ class PatchPath:
         if issues.has_issues():
             return Invalid, issues
 
+        if not isinstance(filter_.operator, ComplexAttributeOperator):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
         if value_sub_attr_rep_exp:
-- 
2.43.0


From 5cce95307801406e64d8f5ed58250bc5fb36b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:32 +0000
Subject: [PATCH 42/71] fix: a filter group is not mistaken for a complex
 attribute filter at the same position

---
 src/filter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..4237e8a 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -86,6 +86,8 @@ class Filter:
         issues = ValidationIssues()
 
         string_values = {}
+        # positions of string values never reach it, so the placeholders do not overlap
+        complex_attr_offset = len(filter_exp)
         for match in STRING_VALUES_REGEX.finditer(filter_exp):
             start, stop = match.span()
             string_value = match.string[start:stop]
@@ -123,7 +125,9 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = (
+                        complex_attr_offset + bracket_open_index - len(complex_attr_rep)
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -183,7 +187,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -211,6 +215,7 @@ class Filter:
         parsed_complex_ops: Optional[Dict[int, _ParsedComplexAttributeOperator]] = None,
     ) -> Tuple[Union[Invalid, _ParsedOperator], ValidationIssues]:
         parsed_complex_ops = parsed_complex_ops or {}
+        group_offset = max([*string_values, *parsed_complex_ops], default=-1) + 1
         issues = ValidationIssues()
         ignore_processing = False
         bracket_open = False
@@ -241,18 +246,18 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                parsed_group_ops[group_offset + bracket_open_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_offset + bracket_open_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
-- 
2.43.0


From 97d52f30f3755f8e352bb9e2167f8aed06ccc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 43/71] fix: whole numbers in filters keep their precision

---
 src/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 2d43cb2..8568c19 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -33,7 +33,10 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
+        try:
+            return int(value)
+        except ValueError:
+            parsed = float(value)
         if not math.isfinite(parsed):
             raise ValueError(f"{value!r} is not a finite number")
         parsed_int = int(parsed)
-- 
2.43.0


From cc5533c0e0298c857781cd9e3b60ab6484700807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:25 +0000
Subject: [PATCH 44/71] fix: bulk response of an unknown resource is not judged
 by another resource's rules

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 8797992..f5ec0a0 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1094,9 +1094,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
-- 
2.43.0


From 5a62d370c6308634297c8d2e9a36e7b7ec357aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:28 +0000
Subject: [PATCH 45/71] fix: bulk response of a successful DELETE with content
 does not raise

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index f5ec0a0..fafcc18 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -935,6 +935,7 @@ class ResourceObjectDELETE(Validator):
     def dump_response(
         *,
         status_code: int,
+        body: Any = None,
         headers: Any = None,
     ) -> Tuple[ResponseData, ValidationIssues]:
         issues = ValidationIssues()
-- 
2.43.0


From e9391fe7b2106dce650203e6dbc94875ad0f4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:47 +0000
Subject: [PATCH 46/71] fix: wrong status of a successful bulk operation is
 reported

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index fafcc18..0ed4fcd 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1136,6 +1136,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From 55e5adc598915043d4cf5df8aeb92ba09832614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:10 +0000
Subject: [PATCH 47/71] fix: PATCH request without operations is reported
 instead of raising

---
 src/assets/schemas/patch_op.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 6ba1e7b..7410c1f 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -87,6 +87,8 @@ class PatchOp(BaseSchema):
         data, issues = super().parse(data)
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
+        if data[self.attrs.operations.rep] in [None, Missing]:
+            return data, issues
 
         parsed = []
         ops = data[self.attrs.operations__op.rep]
-- 
2.43.0


From 22075efd6e76739d0ed87eebb3f1b651849e9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:13 +0000
Subject: [PATCH 48/71] fix: PATCH operation without op is reported instead of
 being taken for a removal

---
 src/assets/schemas/patch_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 7410c1f..5642e2e 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -96,7 +96,7 @@ class PatchOp(BaseSchema):
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if op in [None, Missing] or issues.has_issues((operations.rep.attr, i)):
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
-- 
2.43.0


From a0afa2af70855952556ef1c843b8cb5b574f07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:40 +0000
Subject: [PATCH 49/71] fix: findings about extension attributes of a PATCH
 value are located under the extension

---
 src/request_validators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 0ed4fcd..784f53f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1211,7 +1211,10 @@ class ResourceTypesGET(_ServiceProviderConfig):
         super().__init__(config, resource_schema=ResourceType())
 
 
-def _location(attr_rep: AttrRep) -> Union[Tuple[str], Tuple[str, str]]:
+def _location(attr_rep: AttrRep) -> Tuple[str, ...]:
+    location = (attr_rep.attr,)
     if attr_rep.sub_attr:
-        return attr_rep.attr, attr_rep.sub_attr
-    return (attr_rep.attr,)
+        location = location + (attr_rep.sub_attr,)
+    if attr_rep.extension:
+        location = (attr_rep.schema,) + location
+    return location
-- 
2.43.0


From 44833f7e976c744bb35772d7f5f987b137e65a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:49 +0000
Subject: [PATCH 50/71] fix: PATCH value is not rejected for read-only
 sub-attributes none of its items has

---
 src/assets/schemas/patch_op.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 5642e2e..fcbafb5 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -193,8 +193,15 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
             for attr in self._resource_schema.attrs:
+                attr_value = value[attr.rep]
+                if attr.rep.sub_attr and isinstance(
+                    value[AttrRep(attr.rep.schema, attr.rep.attr, extension=attr.rep.extension)],
+                    List,
+                ):
+                    # values of the sub-attribute, one for each of the items
+                    attr_value = next((v for v in attr_value if v is not Missing), Missing)
                 if (
-                    value[attr.rep] is not Missing
+                    attr_value is not Missing
                     and attr.mutability == AttributeMutability.READ_ONLY
                 ):
                     location = (attr.rep.attr,)
-- 
2.43.0


From a1594f16f9c319cacc1f1d7333a4bbc5d0555ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:35 +0000
Subject: [PATCH 51/71] fix: badly addressed PATCH operation with items that
 are not objects does not raise

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 784f53f..d5daab4 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -892,7 +892,7 @@ class ResourceObjectPATCH(Validator):
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
             item_location = value_location + (j,)
-            if not issues.has_issues(item_location):
+            if isinstance(item, SCIMDataContainer) and not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
                         data=item,
-- 
2.43.0


From 0fc39945e8313bd45038a2bc5db2ebba99585f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 52/71] fix: PATCH operation with a malformed path is reported
 instead of raising

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index d5daab4..1400b7a 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -838,7 +838,7 @@ class ResourceObjectPATCH(Validator):
         ops = body[self._schema.attrs.operations__op.rep]
 
         for i, (op, value, path) in enumerate(zip(ops, values, paths)):
-            if op == "remove":
+            if op == "remove" or path is Invalid:
                 continue
 
             value_location = operations_location + (
-- 
2.43.0


From cc518f70538363d643557da07c27cc2b97e2b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:54 +0000
Subject: [PATCH 53/71] fix: string attribute of a schema without caseExact is
 reported instead of raising

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From a5a89a8c5ab27508494549771c5cf890b8d0753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:10 +0000
Subject: [PATCH 54/71] fix: schema with decimal attributes is accepted

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 13469af..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From e42bf06a04da7154d0038c10429475dcf3de0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:08 +0000
Subject: [PATCH 55/71] fix: processing a request does not change the caller's
 query string

---
 src/request_validators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 1400b7a..54b9525 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -242,6 +242,7 @@ class ResourceObjectGET(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = query_string.copy()
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -277,6 +278,7 @@ class ResourceObjectPUT(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = query_string.copy()
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -323,6 +325,7 @@ class ResourcesPOST(Validator):
     ) -> Tuple[RequestData, ValidationIssues]:
         issues = ValidationIssues()
         if isinstance(query_string, Dict):
+            query_string = query_string.copy()
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
@@ -570,6 +573,7 @@ def _parse_resources_get_request(
     if issues.has_issues():
         return RequestData(headers=headers, query_string=query_string, body=body), issues
 
+    query_string = query_string.copy()
     filter_, issues_ = parse_request_filtering(query_string)
     query_string["filter"] = filter_
     issues.merge(
@@ -821,6 +825,7 @@ class ResourceObjectPATCH(Validator):
         issues = ValidationIssues()
 
         if isinstance(query_string, Dict):
+            query_string = query_string.copy()
             checker, issues_ = parse_requested_attributes(query_string)
             issues.merge(issues=issues_, location=("query_string",))
             if not issues_.has_issues():
-- 
2.43.0


From a6be8685f09389ec905967e0c3153eead70b4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:22 +0000
Subject: [PATCH 56/71] fix: resource of a list whose schemas hold lists or
 objects is reported instead of raising

---
 src/assets/schemas/list_response.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..faca143 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -105,9 +105,9 @@ class ListResponse(BaseSchema):
 
         schemas_value = data[self.attrs.schemas.rep]
         if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+            if not all(isinstance(item, str) for item in schemas_value):
+                return None
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
-- 
2.43.0


From efcc325ec6e116a6311e03871b50f5d4bd2efb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:30 +0000
Subject: [PATCH 57/71] fix: false, zero and empty values as the body of a
 create response or a bulk operation's response are validated

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 54b9525..eaf52a7 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -351,7 +351,7 @@ class ResourcesPOST(Validator):
         presence_checker: Optional[AttributePresenceChecker] = None,
     ) -> Tuple[ResponseData, ValidationIssues]:
         issues = ValidationIssues()
-        if not body:
+        if body is None:
             return ResponseData(headers=headers, body=None), issues  # TODO: warn missing body
 
         return _dump_resource_output_body(
@@ -1111,7 +1111,7 @@ class BulkOperations(Validator):
                         location=location_location,
                     )
 
-            if not (status and response):
+            if not status or response in [None, Missing]:
                 continue
 
             status = int(status)
-- 
2.43.0


From 7ff2b7bd55093ff1f080940f1b9400d30be726cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:48 +0000
Subject: [PATCH 58/71] fix: compare each value of a multi-valued date-time
 attribute

---
 src/data/operator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 02777e5..876eb47 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -278,9 +278,16 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
 
             value = [item["value"] for item in value]
 
-        if attr.type.SCIM_NAME == "dateTime":
+        if attr.type.SCIM_NAME == "dateTime" and isinstance(self.value, str):
+            if not isinstance(value, List):
+                value = [value]
             try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
+                op_value = datetime.fromisoformat(self.value)
+                return [
+                    (datetime.fromisoformat(item), op_value)
+                    for item in value
+                    if isinstance(item, str)
+                ]
             except ValueError:
                 return None
 
-- 
2.43.0


From 328237d1d7a78ed9589109e922209b2cc66660b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:52 +0000
Subject: [PATCH 59/71] fix: a comparison with an operand of another type fails
 instead of raising

---
 src/data/operator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 876eb47..afcc385 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -326,8 +326,11 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
-                return MatchResult.passed()
+            try:
+                if self.OPERATOR(attr_value, op_value):
+                    return MatchResult.passed()
+            except (AttributeError, TypeError):  # values of types that do not compare
+                continue
         return MatchResult.failed()
 
 
-- 
2.43.0


From 6b6ad118e3678d4a4db7c9246c01797455957549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:56 +0000
Subject: [PATCH 60/71] fix: compare a complex attribute by the type and case
 exactness of its value

---
 src/data/operator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index afcc385..b1edbf8 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -261,9 +261,6 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
     def _get_values_for_comparison(
         self, value: Any, attr: Attribute
     ) -> Optional[List[Tuple[Any, Any]]]:
-        if attr.type.SCIM_NAME not in self.SUPPORTED_SCIM_TYPES:
-            return None
-
         if isinstance(attr, ComplexAttribute):
             value_sub_attr = None
             for sub_attr in attr.attrs:
@@ -277,6 +274,10 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
                 return None
 
             value = [item["value"] for item in value]
+            attr = value_sub_attr
+
+        if attr.type.SCIM_NAME not in self.SUPPORTED_SCIM_TYPES:
+            return None
 
         if attr.type.SCIM_NAME == "dateTime" and isinstance(self.value, str):
             if not isinstance(value, List):
-- 
2.43.0


From 522232a8fe45cfdc8779b977dbf4a2e01772ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:45 +0000
Subject: [PATCH 61/71] fix: a lenient filter on a complex attribute accepts
 resources without its items

---
 src/data/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index b1edbf8..0d9680f 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -503,6 +503,7 @@ class ComplexAttributeOperator:
             return MatchResult.failed_no_attr()
         if (
             attr.multi_valued
+            and value not in [None, Missing]
             and not isinstance(value, List)
             or not attr.multi_valued
             and isinstance(value, List)
@@ -535,6 +536,6 @@ class ComplexAttributeOperator:
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
 
-        if missing_data and not strict:
+        if (missing_data or not value) and not strict:
             return MatchResult.passed()
         return MatchResult.failed()
-- 
2.43.0


From 00dc9ad01e88875d8b85631490ddaccfe17a19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:46 +0000
Subject: [PATCH 62/71] fix: decimals that are not finite are reported instead
 of raising or being accepted

---
 src/data/type.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 4527d7b..9ac001c 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -1,5 +1,6 @@
 import abc
 import base64
+import math
 import typing as t
 from datetime import datetime
 from urllib.parse import urlparse
@@ -80,19 +81,35 @@ class Decimal(AttributeType):
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
         if isinstance(value, int):
             value, issues = Integer.parse(value)
-            if value is not Invalid:
-                value = float(value)
-            return value, issues
-        return super().parse(value)
+        else:
+            value, issues = super().parse(value)
+        return cls._to_finite_float(value, issues)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
         if isinstance(value, int):
             value, issues = Integer.dump(value)
-            if value is not Invalid:
-                value = float(value)
+        else:
+            value, issues = super().dump(value)
+        return cls._to_finite_float(value, issues)
+
+    @staticmethod
+    def _to_finite_float(
+        value: t.Any, issues: ValidationIssues
+    ) -> t.Tuple[t.Optional[float], ValidationIssues]:
+        if value is Invalid:
             return value, issues
-        return super().dump(value)
+        try:
+            value = float(value)
+        except OverflowError:
+            value = math.inf
+        if not math.isfinite(value):
+            issues.add(
+                issue=ValidationError.bad_value_syntax(),
+                proceed=False,
+            )
+            return Invalid, issues
+        return value, issues
 
 
 class Integer(AttributeType):
-- 
2.43.0


From 42e39f68bc9ae6ceabe302860c4d26634ddb031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:40 +0000
Subject: [PATCH 63/71] fix: PATCH path with text directly after the filter is
 rejected

---
 src/data/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 26b8b6c..7ad980f 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -99,8 +99,10 @@ class PatchPath:
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            if not value_sub_attr_rep_exp.startswith("."):
+                issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+                return Invalid, issues
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
-- 
2.43.0


From 7c58c7fb406aa802160f1b700243b091a7a0d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 64/71] fix: the sub-attribute $ref is recognised in any letter
 case

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 5f4f7fe..d7f2d41 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -1,9 +1,9 @@
 import re
 from typing import Any, Dict, List, Optional, Union
 
-_ATTR_NAME = re.compile(r"(\w+|\$ref)")
+_ATTR_NAME = re.compile(r"(\w+|(?i:\$ref))")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:\w+|\$ref))?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.(?:\w+|(?i:\$ref)))?)")
 
 
 class AttrRep:
-- 
2.43.0


From 21167a29ef5d92daaa0dec683f11955eee2a3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 65/71] fix: a list request without filter or sorting hands on
 none, not the invalid marker

---
 src/request_validators.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index eaf52a7..445f698 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -365,16 +365,19 @@ class ResourcesPOST(Validator):
         )
 
 
-def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], ValidationIssues]:
+def parse_request_sorting(
+    query_string: Dict,
+) -> Tuple[Union[None, Invalid, Sorter], ValidationIssues]:
     issues = ValidationIssues()
 
     sort_by = query_string.get("sortBy")
+    if sort_by is None:
+        return None, issues
     if not isinstance(sort_by, str):
-        if sort_by is not None:
-            issues.add(
-                issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(sort_by))),
-                proceed=False,
-            )
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(sort_by))),
+            proceed=False,
+        )
         return Invalid, issues
 
     sort_order = query_string.get("sortOrder", "ascending")
@@ -384,15 +387,18 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
     return Sorter.parse(by=sort_by, asc=sort_order == "ascending")
 
 
-def parse_request_filtering(query_string: Dict) -> Tuple[Union[Invalid, Filter], ValidationIssues]:
+def parse_request_filtering(
+    query_string: Dict,
+) -> Tuple[Union[None, Invalid, Filter], ValidationIssues]:
     issues = ValidationIssues()
     filter_exp = query_string.get("filter")
+    if filter_exp is None:
+        return None, issues
     if not isinstance(filter_exp, str):
-        if filter_exp is not None:
-            issues.add(
-                issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(filter_exp))),
-                proceed=False,
-            )
+        issues.add(
+            issue=ValidationError.bad_type(get_scim_type(str), get_scim_type(type(filter_exp))),
+            proceed=False,
+        )
         return Invalid, issues
     return Filter.parse(filter_exp)
 
-- 
2.43.0


From 8707b522c752e8468017114fc9ee62ad33e7b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:34 +0000
Subject: [PATCH 66/71] fix: requested attributes that are empty are none, of a
 wrong type are reported

---
 src/request_validators.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 445f698..504b387 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -407,14 +407,21 @@ def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
+    to_include = query_string.get("attributes") or []
     if to_include and isinstance(to_include, str):
         to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
+    to_exclude = query_string.get("excludeAttributes") or []
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-    if not (isinstance(to_include, List) and isinstance(to_exclude, List)):
+    for name, value in (("attributes", to_include), ("excludeAttributes", to_exclude)):
+        if not isinstance(value, List):
+            issues.add(
+                issue=ValidationError.bad_type(get_scim_type(list), get_scim_type(type(value))),
+                proceed=False,
+                location=(name,),
+            )
+    if issues.has_issues():
         return Invalid, issues
 
     if not (to_include or to_exclude):
-- 
2.43.0


From 80cc5ac7687156bbadbc35fbf081ae4755501119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:09 +0000
Subject: [PATCH 67/71] fix: requested attributes that are not texts are
 reported instead of raising

---
 src/attributes_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index a1239ae..5cb9f08 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -32,13 +32,13 @@ class AttributePresenceChecker:
         parsed_attr_reps = []
         all_parsed = True
         for attr_rep_ in attr_reps:
-            attr_rep = AttrRep.parse(attr_rep_)
+            attr_rep = AttrRep.parse(attr_rep_) if isinstance(attr_rep_, str) else Invalid
             if attr_rep:
                 attr_location = (
                     (attr_rep.attr, attr_rep.sub_attr) if attr_rep.sub_attr else (attr_rep.attr,)
                 )
             else:
-                attr_location = (attr_rep_,)
+                attr_location = (str(attr_rep_),)
             if attr_rep is Invalid:
                 issues.add(
                     issue=ValidationError.bad_attribute_name(attr_rep_),
-- 
2.43.0


From be513b2aeb119b7f9c62157bb49c2e48d866da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:06 +0000
Subject: [PATCH 68/71] fix: a filter in square brackets is read after a schema
 URN with a hyphen

---
 src/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index 4237e8a..94ae610 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -106,7 +106,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From 0eed3e2263483e0cfe6002d5d3a4d2760db89d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:22 +0000
Subject: [PATCH 69/71] fix: a schema before a lone sub-attribute after a
 filtered path is rejected, not dropped

---
 src/data/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 7ad980f..99b4bcf 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -135,6 +135,8 @@ class PatchPath:
                     issue=ValidationError.complex_sub_attribute(attr_rep.attr, sub_attr_rep.attr),
                     proceed=False,
                 )
+        elif sub_attr_rep.schema:
+            issues.add(issue=ValidationError.bad_attribute_name(sub_attr_rep_exp), proceed=False)
         elif attr_rep is not None:
             sub_attr_rep = AttrRep(
                 schema=attr_rep.schema,
-- 
2.43.0


From ee2b28c2b966e3713e20c2fb2b8cb72aa01b5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:37 +0000
Subject: [PATCH 70/71] fix: a lone quote is not a comparison value

---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 8568c19..3ecfdd5 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -19,7 +19,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
+    if len(value) > 1 and (
         value.startswith('"')
         and value.endswith('"')
         or value.startswith("'")
-- 
2.43.0


From 97207156661b6eede84922b67bcb1962d2e31067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 71/71] fix: findings about a filter quote its text, not
 internal placeholders

---
 src/filter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 94ae610..d1d5527 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -652,9 +652,17 @@ class Filter:
             if index in (string_values or {}):
                 encoded = encoded.replace(match.group(0), string_values[index])
             elif index in (parsed_group_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_group_ops[index].expression)
+                group_exp = Filter._encode_placeholders(
+                    exp=parsed_group_ops[index].expression,
+                    string_values=string_values,
+                    parsed_complex_ops=parsed_complex_ops,
+                )
+                encoded = encoded.replace(match.group(0), group_exp)
             elif index in (parsed_complex_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_complex_ops[index].expression)
+                complex_exp = Filter._encode_placeholders(
+                    exp=parsed_complex_ops[index].expression, string_values=string_values
+                )
+                encoded = encoded.replace(match.group(0), complex_exp)
 
         return encoded
 
-- 
2.43.0

