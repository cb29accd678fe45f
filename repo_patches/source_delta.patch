From 325a8582cf36d7964afa32ae939528e138da5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 01/45] fix: do not serve a cached object for a pointer that
 only shares a name prefix

---
 pyopenapi/migration/store.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..a7ad207 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,13 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_under(jp, base):
+    """ check if 'jp' is 'base' itself, or located under 'base', the
+    comparison is carried out in unit of reference token.
+    """
+    return not base or jp == base or jp.startswith(base + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -51,7 +58,7 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
+            if _is_under(jp, path) and spec_version in cache:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
 
-- 
2.43.0


From 858d69e790064398ffee1e569bf4634fa4493214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 02/45] fix: do not hand out cached objects of a sibling
 sharing a name prefix as overrides

---
 pyopenapi/migration/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index a7ad207..841e211 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -79,7 +79,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_under(path, jp) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
-- 
2.43.0


From 7a30828eeea75e916b38e02a5c76197324ce5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 03/45] fix: relocate JSON pointers by whole reference tokens

---
 pyopenapi/migration/store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 841e211..995f995 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -141,7 +141,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From bc708878507b8457c80a57cc2e3e77099dc81c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 04/45] fix: encode parameter names in relocated JSON pointers

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..ea5efdf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -666,7 +666,8 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    param_reloc[jp_compose(k)] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From 2ceec3b954f980d3dc6020b57c46194b04b575b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 05/45] fix: encode model names in $ref when upgrading from 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..4171c11 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import jp_compose, scope_compose, get_or_none
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -29,12 +29,14 @@ def _is_primitive(type_):
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, ref, sep=sep), base='#/definitions')
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, src.type, sep=sep), base='#/definitions')
 
 
 def convert_min_max(dst, src):
@@ -222,7 +224,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = jp_compose(new_scope, base='#/definitions')
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From e77f48c47ffb93646cd7703e92704831b07c6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 06/45] fix: load and convert root-level security requirements

---
 pyopenapi/migration/versions/v2_0/objects.py                    | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index ea5efdf..9aa88ed 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From bc1c39e121919eb4ec73bf7cb56e973919379c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 07/45] fix: provide the snake-case aliases declared by 2.0
 objects

---
 pyopenapi/migration/versions/v2_0/objects.py | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index a27dccf..1ba9e82 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -86,8 +86,8 @@ class Tag(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
-    __renamed__ = {
-        'external_docs': dict(key='externalDocs'),
+    __internal__ = {
+        'external_docs': dict(key='externalDocs', builder=rename),
     }
 
 
@@ -113,17 +113,17 @@ class BaseSchema(BaseObj_v2_0):
         'uniqueItems': dict(),
     }
 
-    __renamed__ = {
-        'type_': dict(key='type'),
-        'format_': dict(key='format'),
-        'exclusive_maximum': dict(key='exclusiveMaximum'),
-        'exclusive_minimum': dict(key='exclusiveMinimim'),
-        'max_length': dict(key='max_length'),
-        'min_length': dict(key='min_length'),
-        'max_items': dict(key='max_items'),
-        'min_items': dict(key='min_items'),
-        'multiple_of': dict(key='multipleOf'),
-        'unique_items': dict(key='uniqueItems'),
+    __internal__ = {
+        'type_': dict(key='type', builder=rename),
+        'format_': dict(key='format', builder=rename),
+        'exclusive_maximum': dict(key='exclusiveMaximum', builder=rename),
+        'exclusive_minimum': dict(key='exclusiveMinimum', builder=rename),
+        'max_length': dict(key='maxLength', builder=rename),
+        'min_length': dict(key='minLength', builder=rename),
+        'max_items': dict(key='maxItems', builder=rename),
+        'min_items': dict(key='minItems', builder=rename),
+        'multiple_of': dict(key='multipleOf', builder=rename),
+        'unique_items': dict(key='uniqueItems', builder=rename),
     }
 
 
@@ -135,8 +135,8 @@ class Items(BaseSchema):
         'collectionFormat': dict(default='csv'),
     }
 
-    __renamed__ = {
-        'collection_format': dict(key='collectionFormat'),
+    __internal__ = {
+        'collection_format': dict(key='collectionFormat', builder=rename),
     }
 
 
-- 
2.43.0


From 8ac7fbe8d6395fde27d1291d132e772bd1605902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 08/45] fix: correct misspelled or mistyped 3.0.0 fields
 (deprecated, style, clientCredentials, examples)

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..f1071ca 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
@@ -398,7 +398,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From 1bb5582d09652942f8158cbfabf2fa77195237ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 09/45] fix: traverse and dump 'content' of 3.0.0 Header
 objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index f1071ca..4bec96d 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -317,6 +317,8 @@ class MediaType(Base2_v3_0_0):
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+# fields of Header are collected when that class is created
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From 4c16e79030138c26502071add6a8d1b284e821b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 10/45] fix: rename oauth2 flows when upgrading to 3.0.0

---
 .../migration/versions/v2_0/scanner/upgrade/constants.py  | 8 ++++++++
 .../migration/versions/v2_0/scanner/upgrade/converters.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
index 6136ed4..6ab76e2 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/constants.py
@@ -30,6 +30,14 @@ SCHEMA_FIELDS = BASE_SCHEMA_FIELDS + (
     'example',
 )
 
+# some flows of oauth2 are renamed in 3.0.0
+OAUTH_FLOWS = {
+    'application': 'clientCredentials',
+    'accessCode': 'authorizationCode',
+    # migrated from 1.2
+    'access_code': 'authorizationCode',
+}
+
 FILE_CONTENT_TYPES = [
     'multipart/form-data',
     'application/x-www-form-urlencoded',
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9aa88ed..69a1557 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -5,7 +5,7 @@ import six
 
 from ......utils import jp_compose, deref
 from ......errs import SchemaError
-from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS
+from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS, OAUTH_FLOWS
 from .parameter_context import ParameterContext
 
 
@@ -166,7 +166,7 @@ def to_flows(obj, path):
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(OAUTH_FLOWS.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
-- 
2.43.0


From 01435f4117d07d76447d29ee73d049464ac3d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 11/45] fix: always provide scopes, which are required in
 3.0.0, for oauth2 flows

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 69a1557..d203683 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -172,8 +172,8 @@ def to_flows(obj, path):
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    # 'scopes' is required in 3.0.0
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From 5986bd66a652b8f990d5542f653f0f933bf2aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 12/45] fix: basic authentication is of type 'http' in 3.0.0

---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index d203683..1fc37c3 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -183,6 +183,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From 584ca0352d1d6ab81512679822810fe0992e2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 13/45] fix: do not share the request body of a path item
 between its operations

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1fc37c3..2ea78d8 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
 import six
 
 from ......utils import jp_compose, deref
@@ -567,7 +568,8 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                # each operation extends its own copy
+                copy.deepcopy(body),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From cf0e64e24e9bc79ecdc5a7acf224030bfa58e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 14/45] fix: keep a minimum or maximum of 0 when upgrading from
 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 4171c11..540977d 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -42,7 +42,7 @@ def update_type_and_ref(dst, src, scope, sep):
 def convert_min_max(dst, src):
     def _from_str(name):
         val = getattr(src, name, None)
-        if val:
+        if val is not None and val != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From 4ed6b4357f2236407dbfc7641c946a563c45dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 15/45] fix: keep empty security requirements when upgrading to
 3.0.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 2ea78d8..8524323 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -450,7 +450,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    # an empty list removes the inherited requirements
+    if obj.security is not None:
         ret['security'] = obj.security.dump()
 
     # parameters
@@ -626,7 +627,8 @@ def to_openapi(obj, path):
                     '/', '~1')] = tmp_reloc
 
     # security
-    if obj.security:
+    # an empty list removes the inherited requirements
+    if obj.security is not None:
         ret['security'] = obj.security.dump()
 
     # tag
-- 
2.43.0


From c32afa71b9ab84fc2a162e646abfacf654c04618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 16/45] fix: only factor out a host shared by every path when
 upgrading from 1.2

---
 .../versions/v1_2/scanner/upgrade.py          | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 540977d..eddd723 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-import os
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -347,18 +346,16 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
-
-        if common_path:
-            parsed = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger['host'] = parsed.netloc
+        # when every path shares the same root, move that root to 'host'
+        roots = set(
+            six.moves.urllib.parse.urlparse(k)[:2]
+            for k in self.__swagger['paths'].keys())
+        if len(roots) == 1:
+            scheme, netloc = roots.pop()
+            self.__swagger['host'] = netloc
 
             new_common_path = six.moves.urllib.parse.urlunparse(
-                (parsed.scheme, parsed.netloc, '', '', '', ''))
+                (scheme, netloc, '', '', '', ''))
             new_path = {}
             for k in self.__swagger['paths'].keys():
                 new_path[k[len(new_common_path):]] = self.__swagger['paths'][k]
-- 
2.43.0


From 94c4344c2e3dc824080c70687b3db6e3c5a19990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 17/45] fix: treat '.yml' as an extension of documents, too

---
 pyopenapi/migration/getter.py | 4 +++-
 pyopenapi/utils.py            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..f5494bc 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -103,7 +103,9 @@ class LocalGetter(Getter):
                 self.urls = [path]
                 return
 
-        for e in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+        for e in [
+                consts.FILE_EXT_JSON, consts.FILE_EXT_YAML, consts.FILE_EXT_YML
+        ]:
             if os.path.isfile(path + '.' + e):
                 self.urls = [path + '.' + e]
                 break
diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..c0d9c5f 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -211,7 +211,9 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     parsed = six.moves.urllib.parse.urlparse(url)
-    for ext in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+    for ext in [
+            consts.FILE_EXT_JSON, consts.FILE_EXT_YAML, consts.FILE_EXT_YML
+    ]:
         if parsed.path.endswith(ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
-- 
2.43.0


From 4b0e272fb049c2f57281db9ae59d46b5e44637d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 18/45] fix: never construct arbitrary python objects when
 loading yaml

---
 pyopenapi/migration/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index f5494bc..43a6597 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -48,7 +48,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = yaml.safe_load(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From cc36895cec50797003e03327da89c2b05ac7232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 19/45] fix: report the unresolvable reference instead of
 AttributeError

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 2 +-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..033dd5d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -45,7 +45,7 @@ def _resolve(obj, expected, attr_group_cls, app, path):
     )
     if not resolved:
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
-            obj.normalized_ref, path))
+            attrs.normalized_ref, path))
 
     attrs.ref_obj = resolved
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..b63627a 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -59,7 +59,7 @@ def _resolve(obj, expected, app, path):
     )
     if not resolved:
         raise JsonReferenceError('Unable to resolve: {}'.format(
-            obj.normalized_ref))
+            attrs.normalized_ref))
 
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
-- 
2.43.0


From ed90b706e0590cd375859691085b45c4046d04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 20/45] fix: compose the server url when only host or basePath
 is provided

---
 .../versions/v2_0/scanner/upgrade/converters.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 8524323..4829e8c 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -588,10 +588,12 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
 
 
 def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
-    url = url or '/'
+    url = obj.basePath or '/'
+    if obj.host:
+        # otherwise, it's relative to where the document is served
+        url = six.moves.urllib.parse.urlunsplit(
+            (obj.schemes[0] if obj.schemes else 'https', obj.host,
+             obj.basePath or '', None, None))
 
     return {'url': url}
 
-- 
2.43.0


From d4a9a7853a5408673ab311746984f28d92943984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 21/45] fix: describe file responses in the schema of the media
 type

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 4829e8c..9621ffb 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -417,8 +417,7 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            media_type['schema'] = {'type': 'string', 'format': 'binary'}
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From 3228311295e0717da0f2b6a56ad838c2bdb7eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 22/45] fix: upgrade 1.2 documents without the optional info or
 models

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index eddd723..c71e52b 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -269,14 +269,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -305,7 +306,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From 9a5a0d7d2a43364b9bd95ac1709dd3fbc511d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 23/45] fix: decode names of authorizations when upgrading from
 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index c71e52b..01607c5 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import jp_compose, scope_compose, get_or_none
+from .....utils import jp_compose, jp_split, scope_compose, get_or_none
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -15,7 +15,7 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
-- 
2.43.0


From 7eceef318c6287c7ddabe1afa63e938f944d4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 24/45] fix: cache a resource listing with its own url

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..5c39fe6 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -154,15 +154,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for api_url, name in urls:
+                resource_spec = self.resolver.resolve(api_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
+                            api_url, jref))
                 cached_apis[name] = ApiDeclaration(resource_spec,
                                                    utils.jp_compose(
-                                                       name, base=url), {})
+                                                       name, base=api_url), {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From 81dad01d6d40b27941b5fa97e3a1626ac0297e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 25/45] fix: do not append absolute paths in references to the
 current folder

---
 pyopenapi/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index c0d9c5f..125c4b3 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -265,11 +265,12 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
+            # it's the path of relative file, or an absolute one
+            if not url_part.startswith('/'):
+                url_part = '/'.join(
+                    [os.path.dirname(url_parsed.path), url_part])
             url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+                url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 96ff1ac52c2c3a4e766b81787bc46ad08a1c9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 26/45] fix: arrays without collectionFormat are not exploded
 in 2.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9621ffb..b66d990 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -350,7 +350,8 @@ def to_parameter(obj, path):
         ret.setdefault('schema', {})['items'] = from_items(
             obj.items, jp_compose('items', base=path))
 
-    if obj.is_set('collectionFormat'):
+    # arrays are always serialized in 'csv' by default
+    if obj.is_set('collectionFormat') or type_ == 'array':
         style, explode = to_style_and_explode(obj.collectionFormat, in_, type_,
                                               jp_compose(
                                                   'collectionFormat',
-- 
2.43.0


From c2bd26339ecab9ba98614a6b00fbdd6f31aa826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 27/45] fix: keep collectionFormat of form fields when
 upgrading to 3.0.0

---
 .../versions/v2_0/scanner/upgrade/converters.py       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index b66d990..9db0cf9 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -24,23 +24,23 @@ def to_style_and_explode(collection_format, in_, type_, path):
     style = None
     explode = None
     if collection_format == 'csv':
-        if in_ == 'query':
+        if in_ in ('query', 'formData'):
             style = 'form'
             explode = False
         elif in_ in ('path', 'header'):
             style = 'simple'
     elif collection_format == 'ssv':
-        if in_ != 'query' or type_ != 'array':
+        if in_ not in ('query', 'formData') or type_ != 'array':
             raise SchemaError('Unsupported style: ssv for {},{} {}'.format(
                 in_, type_, path))
         style = 'spaceDelimited'
     elif collection_format == 'pipes':
-        if in_ != 'query' or type_ != 'array':
+        if in_ not in ('query', 'formData') or type_ != 'array':
             raise SchemaError('Unsupported style: pipes for {},{} {}'.format(
                 in_, type_, path))
         style = 'pipeDelimited'
     elif collection_format == 'multi':
-        if in_ == 'query':
+        if in_ in ('query', 'formData'):
             style = 'form'
             explode = True
 
@@ -249,7 +249,8 @@ def to_encoding(obj, content_type, path):
             'application/x-www-form-urlencoded', 'multipart/form-data'
     ]:
         ret['contentType'] = _decide_encoding_content_type(obj, path)
-        if obj.is_set('collectionFormat'):
+        if obj.is_set('collectionFormat') or getattr(obj, 'type',
+                                                     None) == 'array':
             style, explode = to_style_and_explode(obj.collectionFormat,
                                                   getattr(obj, 'in', None),
                                                   getattr(obj, 'type', None),
-- 
2.43.0


From e2fb2ec53cc661cc417f2847f1e352eb42062839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 28/45] fix: load documents written in yaml with non-string
 keys (status codes)

---
 pyopenapi/migration/getter.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 43a6597..522987e 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -15,6 +15,20 @@ from ..utils import patch_path
 logger = logging.getLogger(__name__)
 
 
+def _with_str_keys(obj):
+    """ keys of mappings in yaml might not be strings, ex. status codes,
+    make them identical to the ones loaded from json.
+    """
+    if isinstance(obj, dict):
+        return {
+            k if isinstance(k, six.string_types) else str(k): _with_str_keys(v)
+            for k, v in six.iteritems(obj)
+        }
+    if isinstance(obj, list):
+        return [_with_str_keys(v) for v in obj]
+    return obj
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -48,7 +62,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.safe_load(obj)
+                    obj = _with_str_keys(yaml.safe_load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From a9a1d18cf131c93e84cfee7062286daee0db8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 29/45] fix: do not double the slash of references next to a
 document in the root folder

---
 pyopenapi/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 125c4b3..936b8ee 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -267,8 +267,9 @@ def normalize_jr(json_ref, url=None):
             url_parsed = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file, or an absolute one
             if not url_part.startswith('/'):
-                url_part = '/'.join(
-                    [os.path.dirname(url_parsed.path), url_part])
+                # the root folder already ends with '/'
+                folder = os.path.dirname(url_parsed.path).rstrip('/')
+                url_part = '/'.join([folder, url_part])
             url_part = six.moves.urllib.parse.urlunparse(
                 url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
-- 
2.43.0


From 7816d64812580affb25c192fdf0e3b4401a27e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 30/45] fix: resolve references to callbacks without path items

---
 pyopenapi/migration/base.py                            | 2 +-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 5c39fe6..1bb6192 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -186,7 +186,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 'Unsupported Swagger Version: {0} from {1}'.format(
                     version, jref))
 
-        if not obj:
+        if obj is None:
             raise Exception('Unable to parse object from {0}'.format(jref))
 
         logger.info('version: %s', version)
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index b63627a..113af8c 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -57,7 +57,7 @@ def _resolve(obj, expected, app, path):
         to_spec_version='3.0.0',
         remove_dummy=True,
     )
-    if not resolved:
+    if resolved is None:
         raise JsonReferenceError('Unable to resolve: {}'.format(
             attrs.normalized_ref))
 
-- 
2.43.0


From 39286026323f3ed17c9138210e7617a9873e5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 31/45] fix: resolve references that are only reached through
 another reference

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 4 ++++
 pyopenapi/migration/versions/v3_0_0/main.py            | 2 +-
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 7 +++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 033dd5d..25ea53e 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,6 +49,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
+    # a reference loaded alone is not a child of anyone
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, attr_group_cls, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..c4356b9 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -34,7 +34,7 @@ def upgrade(obj, app, jref):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
+            ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 113af8c..794ba68 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -49,6 +49,9 @@ def _resolve(obj, expected, app, path):
                 obj.ref, path))
         return
 
+    if attrs.ref_obj is not None:
+        return
+
     resolved, new_ref = app.resolve_obj(
         attrs.normalized_ref,
         from_spec_version=app.original_spec_version
@@ -69,6 +72,10 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # a reference loaded alone is not a child of anyone
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From 11b8dd328c8f374605747e35b04ef7ef4755fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 32/45] fix: upgrade parameters and responses loaded from other
 documents

---
 pyopenapi/migration/versions/v3_0_0/main.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index c4356b9..12cb568 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -9,6 +9,8 @@ from ..v2_0.objects import (
     License,
     Schema,
     PathItem,
+    Parameter,
+    Response,
 )
 from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
@@ -39,6 +41,15 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
+        elif isinstance(ret, Parameter):
+            migrated, ctx = converters.from_parameter(ret, None, None, jp)
+            expected = objects.RequestBodyOrReference if ctx.is_body else objects.ParameterOrReference
+            ret = expected(migrated, path=jp, override=override)
+        elif isinstance(ret, Response):
+            ret = objects.ResponseOrReference(
+                converters.to_response(ret, None, jp),
+                path=jp,
+                override=override)
         else:
             raise Exception(
                 'unable to upgrade from 2.0: {} for type: {}'.format(
-- 
2.43.0


From f6819b4fa1f8f911ce1f4c3c6fde902159ea1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 33/45] fix: keep the target of references inlined from other
 documents

---
 .../v2_0/scanner/upgrade/converters.py        | 53 ++++++++++++++-----
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9db0cf9..e4b8086 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -98,16 +98,26 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def _is_from_other_document(obj):
+    """ check if 'obj' refers to something outside of its document
+    """
+    while obj and getattr(obj, '$ref', None):
+        if not getattr(obj, '$ref').startswith('#'):
+            return True
+        obj = obj.get_attrs('migration').ref_obj
+    return False
+
+
+def to_schema(obj, path, items_converter=None, absolute_ref=False):
     ref = getattr(obj, '$ref', None)
     if ref:
+        if absolute_ref:
+            ref = obj.get_attrs('migration').normalized_ref or ref
         return {'$ref': ref}
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
-
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
 
@@ -120,11 +130,19 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    absolute_ref=absolute_ref))
 
     items = getattr(obj, 'items', None)
     if items:
-        ret['items'] = items_converter(items, jp_compose('items', base=path))
+        items_path = jp_compose('items', base=path)
+        if items_converter:
+            ret['items'] = items_converter(items, items_path)
+        else:
+            ret['items'] = to_schema(
+                items, items_path, absolute_ref=absolute_ref)
 
     properties = getattr(obj, 'properties', None)
     if properties:
@@ -133,17 +151,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                absolute_ref=absolute_ref)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            absolute_ref=absolute_ref)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -320,8 +339,11 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            # references in other documents are relative to those documents
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                absolute_ref=_is_from_other_document(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -422,10 +444,13 @@ def to_response(obj, produces, path):
             media_type['schema'] = {'type': 'string', 'format': 'binary'}
         else:
             for type_ in produces:
+                # references in other documents are relative to those documents
                 content[type_] = {
                     'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
+                    to_schema(
+                        resolved_obj.schema,
+                        jp_compose('schema', base=path),
+                        absolute_ref=_is_from_other_document(obj))
                 }
 
     # header
-- 
2.43.0


From 2a5a06bdc0981de22aeb30f9db940fc42a8c383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 34/45] fix: decode the path of file urls before opening the
 file

---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 522987e..8fe8cfc 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -87,7 +87,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.request.url2pathname(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..3e1b431 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -54,8 +54,12 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
+                    # the path in an url is percent-encoded
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        os.path.join(
+                            parsed.netloc,
+                            six.moves.urllib.request.url2pathname(
+                                parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 60715dfc68fc21b383df3358b5d9a8d6c4620f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 35/45] fix: read local files as utf-8 no matter what the
 locale is

---
 pyopenapi/migration/getter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 8fe8cfc..90d725f 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import io
 import json
 import os
 import logging
@@ -134,7 +135,9 @@ class LocalGetter(Getter):
         logger.info('final path to load: [%s]', path)
 
         ret = None
-        with open(path, 'r') as file_handle:
+        # the encoding is identical to the one of remote resources,
+        # no matter what the one of current locale is.
+        with io.open(path, 'r', encoding='utf-8') as file_handle:
             ret = file_handle.read()
         return ret
 
-- 
2.43.0


From 0e5a7c8f2269b7bc191cb24f589c0d94947ff8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 36/45] fix: keep the precision of large minimum/maximum when
 upgrading from 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 01607c5..f8ec8ef 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -43,9 +43,13 @@ def convert_min_max(dst, src):
         val = getattr(src, name, None)
         if val is not None and val != '':
             if src.type == 'integer':
-                # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst[name] = int(float(val))
+                try:
+                    dst[name] = int(val)
+                except ValueError:
+                    # we need to handle '1.0' when converting to int,
+                    # that's why we need to convert to float first. It's
+                    # not the default way, or large integers lose precision.
+                    dst[name] = int(float(val))
             elif src.type == 'number':
                 dst[name] = float(val)
             else:
-- 
2.43.0


From 016018613b7a1287d99a61ea9b230868dff454b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 37/45] fix: keep minimum/maximum of parameters allowing
 multiple values

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index f8ec8ef..f6c7eee 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -126,6 +126,7 @@ def convert_parameter(param, scope, sep):
         if param.is_set('uniqueItems'):
             p_spec['uniqueItems'] = param.uniqueItems
         p_spec['items'] = convert_items(param)
+        convert_min_max(p_spec['items'], param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
         p_spec['items']['enum'] = param.enum
-- 
2.43.0


From c4abcdd2ce2b5775ac75ebd0a5a0688775e3156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 38/45] fix: empty authorizations of 1.2 operations remove
 those of the resource

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index f6c7eee..dbab601 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -175,8 +175,10 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
-    # looking for it in api-declaration object.
-    _auth = obj.authorizations if obj.authorizations else api_decl.authorizations
+    # looking for it in api-declaration object. An empty one removes those
+    # in api-declaration object.
+    _auth = obj.authorizations if obj.is_set(
+        'authorizations') else api_decl.authorizations
     if _auth:
         op_spec['security'] = []
         for name, scopes in six.iteritems(_auth):
-- 
2.43.0


From 74dea0a8d892093809399d30b527b0f9bd1e9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 39/45] fix: ScopeDict matches names as a whole

---
 pyopenapi/utils.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 936b8ee..fa40e16 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -76,24 +76,15 @@ class ScopeDict(dict):
         try:
             return super(ScopeDict, self).__getitem__(k)
         except KeyError as e:
-            ret = []
-            for obj_name in self.keys():
-                if obj_name.endswith(k):
-                    ret.append(obj_name)
+            # names are matched as a whole, or 'get' would be found in
+            #  - a!##!something-get
+            # and hide (or conflict with)
+            #  - b!##!get
+            suffix = self.__sep + k
+            ret = [name for name in self.keys() if name.endswith(suffix)]
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
-                #  - a!##!get
-                #  - b!##!something-get
-                #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [
-                    r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k
-                ]
-                if len(matched) == 1:
-                    return super(ScopeDict, self).__getitem__(matched[0])
-
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From 025e2ec24c570d73f7f59f159c5d5813f1bb511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 40/45] fix: references to another host without protocol are
 absolute

---
 pyopenapi/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index fa40e16..1c4e595 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -252,6 +252,11 @@ def normalize_jr(json_ref, url=None):
     url_part, jp = (json_ref[:idx],
                     json_ref[idx + 1:]) if idx != -1 else (json_ref, None)
 
+    if url_part.startswith('//') and url:
+        # another host, with the protocol of this document
+        url_part = ':'.join(
+            [six.moves.urllib.parse.urlparse(url).scheme, url_part])
+
     if url_part:
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
-- 
2.43.0


From 780fb5bfdfa6d1e66ad6dbbfe6fced0062a90622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 41/45] fix: empty consumes and produces of operations clear
 the inherited ones

---
 .../versions/v2_0/scanner/upgrade/converters.py       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index e4b8086..95185ce 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -480,13 +480,18 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.security is not None:
         ret['security'] = obj.security.dump()
 
+    # an empty list removes the inherited media types
+    if obj.consumes is not None:
+        consumes = obj.consumes
+    if obj.produces is not None:
+        produces = obj.produces
+
     # parameters
     if obj.parameters:
         parameters = None
         for index, param in enumerate(obj.parameters):
             new_path = jp_compose(['parameters', str(index)], base=path)
-            new_p, pctx = from_parameter(param, body, obj.consumes or consumes,
-                                         new_path)
+            new_p, pctx = from_parameter(param, body, consumes, new_path)
             if pctx.is_body:
                 body = new_p
             else:
@@ -501,7 +506,7 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.responses:
         responses = ret.setdefault('responses', {})
         for k, resp in six.iteritems(obj.responses):
-            responses[k] = to_response(resp, obj.produces or produces,
+            responses[k] = to_response(resp, produces,
                                        jp_compose(['responses', k], base=path))
 
     # externalDocs
-- 
2.43.0


From 5c33df4fa218a7d0a0a5212b6388704668eac527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:39 +0000
Subject: [PATCH 42/45] fix: responses know the container holding them after
 loading

---
 pyopenapi/migration/versions/v2_0/scanner/yaml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/yaml.py b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
index b7aa05c..c4da6b8 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/yaml.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/yaml.py
@@ -30,4 +30,6 @@ class YamlFixer(object):
                 responses[str(k)] = resp
             else:
                 responses[k] = resp
+            # entries are held by the new container now
+            resp.set_parent(responses)
         obj.attach_child('responses', responses)
-- 
2.43.0


From f14ad769964f32387e6ba0e1094486f1734bf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 43/45] fix: relocate pointers whose tokens are empty

---
 pyopenapi/migration/store.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 995f995..dfd47a7 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -177,11 +177,12 @@ class SpecObjStore(object):
             # a qualified JSON pointer
             new_jp = fixed_prefix + '/' + patch_to
 
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
-        if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
-        return new_jp
+        # what is below the matched part, its first token might be empty
+        matched = '/'.join([p for p in (fixed_prefix, patch_from) if p])
+        remain = jp[len(matched):]
+        if remain and new_jp.endswith('/'):
+            remain = remain[1:]
+        return new_jp + remain
 
     def relocate(self, url, jp, from_spec, to_spec=None):
         """ $ref relocation
-- 
2.43.0


From 17c6874cf1f566f475eb653997804b7a175452d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 44/45] fix: upgrade 1.2 scopes without description

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index dbab601..7af0793 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -325,7 +325,7 @@ class Upgrade(object):
             ss_spec['type'] = obj.type
         ss_spec['scopes'] = {}
         for scope in obj.scopes or []:
-            ss_spec['scopes'][scope.scope] = scope.description
+            ss_spec['scopes'][scope.scope] = scope.description or ''
 
         if ss_spec['type'] == 'oauth2':
             authorization_url = get_or_none(obj, 'grantTypes', 'implicit',
-- 
2.43.0


From a3c282aad44858b5388b431d6ae71175af60ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:11 +0000
Subject: [PATCH 45/45] fix: take only names with an extension for files when
 looking for the folder of a listing

---
 pyopenapi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 1c4e595..d962132 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -205,7 +205,7 @@ def url_dirname(url):
     for ext in [
             consts.FILE_EXT_JSON, consts.FILE_EXT_YAML, consts.FILE_EXT_YML
     ]:
-        if parsed.path.endswith(ext):
+        if parsed.path.endswith('.' + ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
     return url
-- 
2.43.0

