From 0f49491b9ad994008f2e05ca1dc50ef65362fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 01/22] fix: report validation errors with the source line of
 the failing element

Source lines were collected into one map shared by the whole document
although error locations are relative to the model being validated, so a
nested model overwrote the lines of fields of the outer one having the same
name. Aliased fields, fields of nested root models and errors of a model
itself had no line at all.
---
 pydantic_xml/serializers/factories/model.py | 8 +++++++-
 pydantic_xml/utils.py                       | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..b66219b 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,11 +207,14 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # error locations are relative to the model so source lines are tracked per model
+        sourcemap = {(): element.get_sourceline()}
+        loc_by_alias = self._model.model_config.get('loc_by_alias', True)
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name) if loc_by_alias else field_name,)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -334,6 +337,9 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # error locations are relative to the model so source lines are tracked per model
+        loc = ()
+        sourcemap = {loc: element.get_sourceline()}
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..90b89ca 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -137,8 +137,8 @@ def set_validation_error_sourceline(
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
-        loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        loc = error['loc']
+        while (sourceline := sourcemap.get(loc, -1)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From 65b2e471bca3f17062ffa897eb02b5fdca7f4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:39 +0000
Subject: [PATCH 02/22] fix: keep the text around comments and processing
 instructions

With the lxml backend the text following a comment was lost and a processing
instruction was taken for a sub-element.
---
 pydantic_xml/element/element.py     |  3 +++
 pydantic_xml/element/native/lxml.py | 23 +++++++++++++++--------
 pydantic_xml/element/native/std.py  | 23 +++++++++++++++--------
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..4e6c97f 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -368,6 +368,9 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
     def set_text(self, text: str) -> None:
         self._state.text = text
 
+    def append_tail(self, tail: str) -> None:
+        self._state.tail = (self._state.tail or '') + tail
+
     def set_attribute(self, name: str, value: str) -> None:
         if self._state.attrib is None:
             self._state.attrib = {}
diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..c06da5c 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -18,19 +18,26 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text, elements = element.text, []
+        for sub_element in element:
+            if not is_comment_or_pi(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text next to a comment continues the text preceding it
+                if elements:
+                    elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
@@ -61,5 +68,5 @@ def force_str(val: Union[str, bytes]) -> str:
         return val
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, etree._Comment)
+def is_comment_or_pi(element: ElementT) -> bool:
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..928b99f 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -16,16 +16,23 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text, elements = element.text, []
+        for sub_element in element:
+            if not is_comment_or_pi(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text next to a comment continues the text preceding it
+                if elements:
+                    elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
@@ -43,5 +50,5 @@ class XmlElement(BaseXmlElement[ElementT]):
         return -1
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+def is_comment_or_pi(element: ElementT) -> bool:
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)  # type: ignore[comparison-overlap]
-- 
2.43.0


From 7f77ec6c334495fbc2289972952f818fe073fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:42 +0000
Subject: [PATCH 03/22] fix: omit a mapping element that is None when empty or
 none values are skipped

---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From ebc575834900c980251e674192a564c4516c3b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 04/22] fix: write mapping values in the same text form as
 other scalars

---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..9a35389 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
+            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
             for attr, enc in encoded.items()
         })
 
-- 
2.43.0


From fc444aa13bde3def9a840895489206a5d95aaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 05/22] fix: skip exactly what a failed union choice has
 consumed

In ordered and unordered search modes the failed element is not necessarily
the next one, so that it was reported twice or another one was skipped.
---
 pydantic_xml/serializers/factories/union.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..77d525d 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -133,6 +133,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        failed_snapshot: Optional[XmlElementReader] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -148,9 +149,11 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                failed_snapshot = failed_snapshot or snapshot
 
-        if union_errors:
-            element.step_forward()
+        if failed_snapshot is not None:
+            # skips what has been consumed by the failed choice
+            element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From 80ee759a0261e8f9f899ebda58a8c2c254568533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 06/22] fix: make precedence of custom xml field hooks
 independent of the hash seed

---
 pydantic_xml/model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..2a41f02 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -129,7 +129,18 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        base_model_attrs = set(dir(BaseModel))
+        # attributes are processed in the definition order (base classes first)
+        # so that the one which is defined last takes precedence
+        attr_names: Dict[str, None] = {}
+        for base in reversed(cls.__mro__):
+            for attr_name in vars(base):
+                attr_names.pop(attr_name, None)
+                attr_names[attr_name] = None
+
+        for attr_name in attr_names:
+            if attr_name in base_model_attrs:
+                continue
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 16572730d5f5c7c9d1d54a2192e8c957e1aacc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 07/22] fix: resolve local forward references by model_rebuild
 and return its result

The method hid the namespace of the caller from pydantic and its result from
the automatic rebuild, which ended up with a recursion error for a model that
can't be rebuilt.
---
 pydantic_xml/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2a41f02..dbe0d2f 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -251,12 +251,18 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> Optional[bool]:
+        # the namespace of the caller is one frame further because of this method
+        if _parent_namespace_depth > 0:
+            _parent_namespace_depth += 1
+
+        result = super().model_rebuild(_parent_namespace_depth=_parent_namespace_depth, **kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From 76cfe1c8ec1a700d74856b4242cfc5ed7346df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 08/22] fix: report errors of all failed union choices having
 the same title

---
 pydantic_xml/serializers/factories/heterogeneous.py | 2 +-
 pydantic_xml/serializers/factories/homogeneous.py   | 2 +-
 pydantic_xml/serializers/factories/model.py         | 4 ++--
 pydantic_xml/serializers/factories/union.py         | 6 +++---
 pydantic_xml/utils.py                               | 7 +++----
 5 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 53536ae..6d7ea07 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -89,7 +89,7 @@ class ElementSerializer(Serializer):
         if item_errors:
             raise utils.into_validation_error(
                 title=self._model_name,
-                errors_map=item_errors,
+                location_errors=item_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 3d134ed..4cdf2b5 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -97,7 +97,7 @@ class ElementSerializer(Serializer):
         if item_errors:
             raise utils.into_validation_error(
                 title=self._model_name,
-                errors_map=item_errors,
+                location_errors=item_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index b66219b..dc36e20 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -232,7 +232,7 @@ class ModelSerializer(BaseModelSerializer):
         if field_errors:
             raise utils.into_validation_error(
                 title=self._model.__name__,
-                errors_map=field_errors,
+                location_errors=field_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
@@ -349,7 +349,7 @@ class RootModelSerializer(BaseModelSerializer):
         except pd.ValidationError as err:
             raise utils.into_validation_error(
                 title=self._model.__name__,
-                errors_map={None: err},
+                location_errors=[(None, err)],
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 77d525d..6c50295 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -132,7 +132,7 @@ class ModelSerializer(Serializer):
         if element is None:
             return None
 
-        union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        union_errors: List[Tuple[Union[None, str, int], pd.ValidationError]] = []
         failed_snapshot: Optional[XmlElementReader] = None
         result: Any = None
         for serializer in self._inner_serializers:
@@ -148,14 +148,14 @@ class ModelSerializer(Serializer):
                     element.apply_snapshot(snapshot)
                     return result
             except pd.ValidationError as e:
-                union_errors[e.title] = e
+                union_errors.append((e.title, e))
                 failed_snapshot = failed_snapshot or snapshot
 
         if failed_snapshot is not None:
             # skips what has been consumed by the failed choice
             element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
-                title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
+                title=self._model_name, location_errors=union_errors, hide_input=self._hide_input_in_errors,
             )
 
         return result
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index 90b89ca..e7ef5d6 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -2,7 +2,7 @@ import dataclasses as dc
 import itertools as it
 import re
 from collections import ChainMap
-from typing import Dict, Iterable, List, Optional, Union, cast
+from typing import Dict, Iterable, List, Optional, Tuple, Union, cast
 
 import pydantic as pd
 import pydantic_core as pdc
@@ -107,12 +107,11 @@ def select_ns(*nss: Optional[str]) -> Optional[str]:
 
 def into_validation_error(
         title: str,
-        errors_map: Dict[Union[None, str, int], pd.ValidationError],
+        location_errors: Iterable[Tuple[Union[None, str, int], pd.ValidationError]],
         hide_input: bool,
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
-    for location in list(errors_map):
-        validation_error = errors_map.pop(location)
+    for location, validation_error in location_errors:
         for error in validation_error.errors():
             line_errors.append(
                 pdc.InitErrorDetails(
-- 
2.43.0


From 4fae3042666c6fbe7fe145a77b08a2ff7c1dbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 09/22] fix: don't substitute braces in error messages of
 nested models

---
 pydantic_xml/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index e7ef5d6..4b11018 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -105,6 +105,15 @@ def select_ns(*nss: Optional[str]) -> Optional[str]:
     return None
 
 
+def _make_error_type(error: pdc.ErrorDetails) -> pdc.PydanticCustomError:
+    error_type = pdc.PydanticCustomError(error['type'], error['msg'], error.get('ctx'))
+    if error_type.message() != error['msg']:
+        # the message is not a template, so the braces it contains must not be substituted
+        error_type = pdc.PydanticCustomError(error['type'], error['msg'])
+
+    return error_type
+
+
 def into_validation_error(
         title: str,
         location_errors: Iterable[Tuple[Union[None, str, int], pd.ValidationError]],
@@ -115,7 +124,7 @@ def into_validation_error(
         for error in validation_error.errors():
             line_errors.append(
                 pdc.InitErrorDetails(
-                    type=pdc.PydanticCustomError(error['type'], error['msg'], error.get('ctx')),
+                    type=_make_error_type(error),
                     loc=(location, *error['loc']) if location is not None else error['loc'],
                     input=error['input'],
                 ),
-- 
2.43.0


From d0d1ed07ccf69762e469bb46acf7261b707aba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 10/22] fix: omit fields excluded by exclude_if instead of
 failing

---
 pydantic_xml/serializers/factories/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index dc36e20..1c39a13 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -182,6 +182,8 @@ class ModelSerializer(BaseModelSerializer):
                 continue
             if exclude_unset and field_name not in value.__pydantic_fields_set__:
                 continue
+            if field_name not in encoded:  # excluded by pydantic (see `exclude_if` field argument)
+                continue
 
             if custom_field_serializer := self._model.__xml_field_serializers__.get(field_name):
                 custom_field_serializer(value, element, getattr(value, field_name), field_name)
-- 
2.43.0


From 6cdf8a4b8f97b2e7efd8b8c05eec10d0c1988b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 11/22] fix: keep attributes of other fields when a mapping of
 local attributes is written

---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 9a35389..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From ba0a7cecdb13c7b88a5ced5b5884b9abf554f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:37 +0000
Subject: [PATCH 12/22] fix: omit a tagged union that is None instead of
 failing

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 14e3ddea2986722a8a8f75048fbd27427541613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:37 +0000
Subject: [PATCH 13/22] fix: respect the module given for a dynamically created
 model

---
 pydantic_xml/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index dbe0d2f..b9cc1f1 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -88,7 +88,12 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
-    model = pd.create_model(__model_name, __base__=model_base, **kwargs)
+    model = pd.create_model(
+        __model_name,
+        __module__=__module__,  # type: ignore[arg-type]
+        __base__=model_base,
+        **kwargs,
+    )
 
     return typing.cast(Type[Model], model)
 
-- 
2.43.0


From fe935aef361cfa50cb598c89eb0fd827127f8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:17 +0000
Subject: [PATCH 14/22] fix: don't fail to define a model while its base class
 is being rebuilt

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index b9cc1f1..067b79d 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -139,7 +139,7 @@ class XmlModelMeta(ModelMetaclass):
         # so that the one which is defined last takes precedence
         attr_names: Dict[str, None] = {}
         for base in reversed(cls.__mro__):
-            for attr_name in vars(base):
+            for attr_name in tuple(vars(base)):  # the base class may be being rebuilt by another thread
                 attr_names.pop(attr_name, None)
                 attr_names[attr_name] = None
 
-- 
2.43.0


From bf6c941bc9a8149165e71dea8e65918172974837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 15/22] fix: don't keep the errors of failed nested values
 alive

A validation error refers to the frames of the parse through the traceback of the validator's exception, and the frames
referred to the error, in a cycle the garbage collector can't see. Every failed parse leaked.
---
 .../serializers/factories/heterogeneous.py    | 36 +++++++------
 .../serializers/factories/homogeneous.py      | 38 +++++++-------
 pydantic_xml/serializers/factories/model.py   | 50 ++++++++++---------
 pydantic_xml/serializers/factories/union.py   | 48 ++++++++++--------
 4 files changed, 94 insertions(+), 78 deletions(-)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 6d7ea07..fccf732 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -75,23 +75,27 @@ class ElementSerializer(Serializer):
 
         result: List[Any] = []
         item_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
-        for idx, serializer in enumerate(self._inner_serializers):
-            try:
-                result.append(
-                    serializer.deserialize(
-                        element,
-                        context=context, sourcemap=sourcemap, loc=loc + (idx,), empty_as_string=empty_as_string,
-                    ),
+        try:
+            for idx, serializer in enumerate(self._inner_serializers):
+                try:
+                    result.append(
+                        serializer.deserialize(
+                            element,
+                            context=context, sourcemap=sourcemap, loc=loc + (idx,), empty_as_string=empty_as_string,
+                        ),
+                    )
+                except pd.ValidationError as err:
+                    item_errors[idx] = err
+
+            if item_errors:
+                raise utils.into_validation_error(
+                    title=self._model_name,
+                    location_errors=item_errors.items(),
+                    hide_input=self._hide_input_in_errors,
                 )
-            except pd.ValidationError as err:
-                item_errors[idx] = err
-
-        if item_errors:
-            raise utils.into_validation_error(
-                title=self._model_name,
-                location_errors=item_errors.items(),
-                hide_input=self._hide_input_in_errors,
-            )
+        finally:
+            # errors of validators refer to this frame by their tracebacks, so that it must not refer to the errors
+            item_errors.clear()
 
         if all((value is None for value in result)):
             return None
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 4cdf2b5..88bd1b3 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -82,24 +82,28 @@ class ElementSerializer(Serializer):
         serializer = self._inner_serializer
         result: List[Any] = []
         item_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
-        for idx in it.count():
-            try:
-                value = serializer.deserialize(
-                    element, context=context, sourcemap=sourcemap, loc=loc + (idx,), empty_as_string=empty_as_string,
+        try:
+            for idx in it.count():
+                try:
+                    value = serializer.deserialize(
+                        element, context=context, sourcemap=sourcemap, loc=loc + (idx,), empty_as_string=empty_as_string,
+                    )
+                    if value is None:
+                        break
+                except pd.ValidationError as err:
+                    item_errors[idx] = err
+                else:
+                    result.append(value)
+
+            if item_errors:
+                raise utils.into_validation_error(
+                    title=self._model_name,
+                    location_errors=item_errors.items(),
+                    hide_input=self._hide_input_in_errors,
                 )
-                if value is None:
-                    break
-            except pd.ValidationError as err:
-                item_errors[idx] = err
-            else:
-                result.append(value)
-
-        if item_errors:
-            raise utils.into_validation_error(
-                title=self._model_name,
-                location_errors=item_errors.items(),
-                hide_input=self._hide_input_in_errors,
-            )
+        finally:
+            # errors of validators refer to this frame by their tracebacks, so that it must not refer to the errors
+            item_errors.clear()
 
         return result or None
 
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 1c39a13..ab1d7d7 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -214,29 +214,33 @@ class ModelSerializer(BaseModelSerializer):
         loc_by_alias = self._model.model_config.get('loc_by_alias', True)
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
-        for field_name, field_serializer in self._field_serializers.items():
-            try:
-                loc = (self._fields_validation_aliases.get(field_name, field_name) if loc_by_alias else field_name,)
-                sourcemap[loc] = element.get_sourceline()
-                if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
-                    field_value = custom_field_validator(self._model, element, field_name)
-                else:
-                    field_value = field_serializer.deserialize(
-                        element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
-                    )
-
-                if field_value is not None:
-                    field_name = self._fields_validation_aliases.get(field_name, field_name)
-                    result[field_name] = field_value
-            except pd.ValidationError as err:
-                field_errors[field_name] = err
-
-        if field_errors:
-            raise utils.into_validation_error(
-                title=self._model.__name__,
-                location_errors=field_errors.items(),
-                hide_input=self._hide_input_in_errors,
-            )
+        try:
+            for field_name, field_serializer in self._field_serializers.items():
+                try:
+                    loc = (self._fields_validation_aliases.get(field_name, field_name) if loc_by_alias else field_name,)
+                    sourcemap[loc] = element.get_sourceline()
+                    if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
+                        field_value = custom_field_validator(self._model, element, field_name)
+                    else:
+                        field_value = field_serializer.deserialize(
+                            element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                        )
+
+                    if field_value is not None:
+                        field_name = self._fields_validation_aliases.get(field_name, field_name)
+                        result[field_name] = field_value
+                except pd.ValidationError as err:
+                    field_errors[field_name] = err
+
+            if field_errors:
+                raise utils.into_validation_error(
+                    title=self._model.__name__,
+                    location_errors=field_errors.items(),
+                    hide_input=self._hide_input_in_errors,
+                )
+        finally:
+            # errors of validators refer to this frame by their tracebacks, so that it must not refer to the errors
+            field_errors.clear()
 
         if self._model.model_config.get('extra', 'ignore') == 'forbid':
             self._check_extra(self._model.__name__, element, self._hide_input_in_errors)
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 6c50295..5f7db80 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -135,28 +135,32 @@ class ModelSerializer(Serializer):
         union_errors: List[Tuple[Union[None, str, int], pd.ValidationError]] = []
         failed_snapshot: Optional[XmlElementReader] = None
         result: Any = None
-        for serializer in self._inner_serializers:
-            snapshot = element.create_snapshot()
-            try:
-                if (
-                    result := serializer.deserialize(
-                        snapshot, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
-                    )
-                ) is None:
-                    continue
-                else:
-                    element.apply_snapshot(snapshot)
-                    return result
-            except pd.ValidationError as e:
-                union_errors.append((e.title, e))
-                failed_snapshot = failed_snapshot or snapshot
-
-        if failed_snapshot is not None:
-            # skips what has been consumed by the failed choice
-            element.apply_snapshot(failed_snapshot)
-            raise utils.into_validation_error(
-                title=self._model_name, location_errors=union_errors, hide_input=self._hide_input_in_errors,
-            )
+        try:
+            for serializer in self._inner_serializers:
+                snapshot = element.create_snapshot()
+                try:
+                    if (
+                        result := serializer.deserialize(
+                            snapshot, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                        )
+                    ) is None:
+                        continue
+                    else:
+                        element.apply_snapshot(snapshot)
+                        return result
+                except pd.ValidationError as e:
+                    union_errors.append((e.title, e))
+                    failed_snapshot = failed_snapshot or snapshot
+
+            if failed_snapshot is not None:
+                # skips what has been consumed by the failed choice
+                element.apply_snapshot(failed_snapshot)
+                raise utils.into_validation_error(
+                    title=self._model_name, location_errors=union_errors, hide_input=self._hide_input_in_errors,
+                )
+        finally:
+            # errors of validators refer to this frame by their tracebacks, so that it must not refer to the errors
+            union_errors.clear()
 
         return result
 
-- 
2.43.0


From 149394e344363bc4a268add1fb9cbe880d2da88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 16/22] fix: don't omit wrapped raw elements having a text or
 attributes but no sub-elements

---
 pydantic_xml/serializers/factories/wrapper.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..b71a0a5 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -3,11 +3,20 @@ from typing import Any, Dict, Optional, Sized
 from pydantic_core import core_schema as pcs
 
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element.native import ElementT, XmlElement
 from pydantic_xml.serializers.serializer import SearchMode, Serializer
 from pydantic_xml.typedefs import Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
 
+def is_empty(value: Any) -> bool:
+    # the length of a raw element is the number of its sub-elements: without any it may have a text or attributes
+    if isinstance(value, ElementT):
+        return XmlElement.from_native(value).is_empty()
+
+    return isinstance(value, Sized) and len(value) == 0
+
+
 class ElementPathSerializer(Serializer):
     @classmethod
     def from_core_schema(cls, schema: pcs.CoreSchema, ctx: Serializer.Context) -> 'ElementPathSerializer':
@@ -52,7 +61,7 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
+        if skip_empty and is_empty(value):
             return element
 
         for part in self._path:
-- 
2.43.0


From c8af510cbe4bf9aa0675964c6801ba894c8f41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 17/22] fix: don't spoil the namespaces of elements rebinding a
 prefix of their parents under lxml

---
 pydantic_xml/element/native/lxml.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index c06da5c..eb38e6b 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import Any, Optional, Union
 
 from lxml import etree
 
@@ -42,15 +42,21 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
-        element = etree.Element(
-            self._tag,
-            attrib=self._state.attrib,
-            # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
-        )
+        return self._to_native(None)
+
+    def _to_native(self, parent: Optional[ElementT]) -> ElementT:
+        # https://github.com/lxml/lxml-stubs/issues/76
+        nsmap: Any = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None
+        if parent is None:
+            element = etree.Element(self._tag, attrib=self._state.attrib, nsmap=nsmap)
+        else:
+            # moving a complete element to its parent could bind its names to a prefix redefined by the element itself
+            element = etree.SubElement(parent, self._tag, attrib=self._state.attrib, nsmap=nsmap)
+
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
+        for sub_element in self._state.elements:
+            typing.cast(XmlElement, sub_element)._to_native(element)
 
         return element
 
-- 
2.43.0


From 0f5726676cd39f8eac7f9ae38401493b97955527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 18/22] fix: let the namespace map of a wrapper take precedence
 for the wrapped entity

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From e328b62168ae247bf1fcb8fe0d9cfce8d118c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 19/22] fix: don't fail to build a serializer if pydantic
 resolves references in parallel

---
 pydantic_xml/serializers/serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..322ea9e 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -179,6 +179,7 @@ class Serializer(abc.ABC):
 
     @classmethod
     def preprocess_schema(cls, schema: pcs.CoreSchema, ctx: Context) -> Tuple[pcs.CoreSchema, Context]:
+        schema = schema.copy()  # a reference may be replaced in place if pydantic builds another model in parallel
         schema_type = schema['type']
         if (type_family := TYPE_FAMILY.get(schema_type)) is None:
             raise ModelError(f"type {schema_type} is not supported")
-- 
2.43.0


From 4a90d8981e8457e45602cb08291d24cff6a34baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 20/22] fix: don't fail to define models with namespaces in
 parallel under the standard library backend

---
 pydantic_xml/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index 4b11018..7ddb5b8 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -1,6 +1,7 @@
 import dataclasses as dc
 import itertools as it
 import re
+import threading
 from collections import ChainMap
 from typing import Dict, Iterable, List, Optional, Tuple, Union, cast
 
@@ -83,6 +84,9 @@ def merge_nsmaps(*maps: Optional[NsMap]) -> NsMap:
     return cast(NsMap, ChainMap(*(nsmap for nsmap in maps if nsmap)))
 
 
+_registry_lock = threading.Lock()  # the registry of the standard library is not thread-safe
+
+
 def register_nsmap(nsmap: NsMap) -> None:
     """
     Registers namespaces prefixes from the map.
@@ -90,7 +94,8 @@ def register_nsmap(nsmap: NsMap) -> None:
 
     for prefix, uri in nsmap.items():
         if prefix != '' and not re.match(r"ns\d+$", prefix):  # skip default namespace and reserved ones
-            etree.register_namespace(prefix, uri)
+            with _registry_lock:
+                etree.register_namespace(prefix, uri)
 
 
 def get_slots(o: object) -> Iterable[str]:
-- 
2.43.0


From d484d454bee905b80fc730fae7afb561e17eb254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:13 +0000
Subject: [PATCH 21/22] fix: a computed field decorator may be applied more
 than once

---
 pydantic_xml/fields.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..57b389d 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -258,12 +258,14 @@ def computed_entity(
         **kwargs: Any,
 ) -> Union[PropertyT, Callable[[PropertyT], PropertyT]]:
     def decorator(prop: Any) -> Any:
-        path = kwargs.pop('path', None)
-        ns = kwargs.pop('ns', None)
-        nsmap = kwargs.pop('nsmap', None)
-        nillable = kwargs.pop('nillable', None)
-
-        descriptor_proxy = pd.computed_field(**kwargs)(prop)
+        # the decorator may be applied to several properties
+        field_kwargs = dict(kwargs)
+        path = field_kwargs.pop('path', None)
+        ns = field_kwargs.pop('ns', None)
+        nsmap = field_kwargs.pop('nsmap', None)
+        nillable = field_kwargs.pop('nillable', None)
+
+        descriptor_proxy = pd.computed_field(**field_kwargs)(prop)
         descriptor_proxy.decorator_info = ComputedXmlEntityInfo(
             location=location,
             path=path,
-- 
2.43.0


From fe89f8f5d3c09a057f9b2f62313ff61819a5b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:13 +0000
Subject: [PATCH 22/22] fix: create_model doesn't change the class arguments it
 is given

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 067b79d..31c8bab 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -63,7 +63,7 @@ def create_model(
     :return: created model
     """
 
-    cls_kwargs = kwargs.setdefault('__cls_kwargs__', {})
+    cls_kwargs = kwargs['__cls_kwargs__'] = dict(kwargs.get('__cls_kwargs__') or {})
     cls_kwargs['metaclass'] = XmlModelMeta
 
     cls_kwargs['tag'] = __tag__
-- 
2.43.0

