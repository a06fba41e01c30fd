From 9b155d905c5ca740da8a52c9d7ab3e9338212067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 01/36] fix: pathexpr returned the compile builtin once the
 expression cache was full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From 5a687ce832b4f87c96f8b47c62a99ca38be586e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 02/36] fix: ".." in a path must not depend on the truth value
 of the parent element

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..49dc049 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -64,7 +64,7 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
+                    if el.parent is not None:
                         el = el.parent
                 elif op is HERE:
                     pass
-- 
2.43.0


From 1eab01880d5ade508a4b8c2508bae0b9bcacc5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 03/36] fix: a path slice with a stop of zero selected
 everything

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 49dc049..6e9ab29 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -184,7 +184,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 39b96b66bf8c0008c0264e4ac10cb0531c5da118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 04/36] fix: luhn10 never returned for negative numbers

---
 flatland/util/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..6535528 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -222,6 +222,7 @@ def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
     sum = 0
+    number = abs(number)
     while number:
         r = number % 100
         number //= 100
-- 
2.43.0


From 201a0d9e4cb472e562ede2a9139110d0af66c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 05/36] fix: HTTPURLValidator did not require an http or https
 scheme by default

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From 70cc61fe0519a3c681e95ade0a4b263ac57ba317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 06/36] fix: HTTPURLValidator raised ValueError on an
 unparseable URL

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..6f23c6a 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except ValueError:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From 68f00760864c08527473f865033f1b4889030a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 07/36] fix: HTTPURLValidator took an empty part for a required
 one

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 6f23c6a..590972e 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From e8516705e178584f6d0f3c405f9d6dd302948ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 08/36] fix: IsEmail accepted a domain followed by a newline

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 590972e..f7cc6d8 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From f300823613b85b7a686f6780fef43d6350ecedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 09/36] fix: NANPphone raised TypeError for every number with
 an extension

---
 flatland/validation/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..b77bdcf 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,8 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]), int(value[3:6]),
+                                    int(value[6:10]), int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From c854de92385722286a5d9a77732ed581c74d508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 10/36] fix: NANPphone dropped leading zeros of non-ASCII
 digits

---
 flatland/validation/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index b77bdcf..36b1c2a 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -28,7 +28,7 @@ class NANPphone(Validator):
 
         if not self.re_lowbit.match(value):
             # Translate to single-byte numbers.
-            value = six.text_type(str(int(value)))
+            value = u''.join(six.text_type(int(digit)) for digit in value)
 
         if len(value) < 10:
             return self.note_error(element, state, 'invalid')
-- 
2.43.0


From f6eae41642099067c42a29a56e01a6611a62b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:42 +0000
Subject: [PATCH 11/36] fix: setting an unsigned Decimal to NaN raised
 InvalidOperation

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..2ad3d8d 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -246,12 +246,12 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
+            negative = not self.signed and native < 0
         except (ValueError, TypeError, ArithmeticError):
             raise AdaptationError()
         else:
-            if not self.signed:
-                if native < 0:
-                    raise AdaptationError()
+            if negative:
+                raise AdaptationError()
             return native
 
     def serialize(self, value):
-- 
2.43.0


From b1434e42b22fec8dcea8c586269ed42d20fe30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 12/36] fix: setting a Decimal to a signaling NaN raised
 TypeError

---
 flatland/schema/scalars.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 2ad3d8d..f5d7167 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -309,6 +309,13 @@ class Decimal(Number):
     format = u'%f'
     """``u'%f'``"""
 
+    def adapt(self, value):
+        native = Number.adapt(self, value)
+        if native is not None and native.is_snan():
+            # signaling NaNs can not be formatted
+            raise AdaptationError()
+        return native
+
 
 class Boolean(Scalar):
     """Element type for Python's ``bool``."""
-- 
2.43.0


From 0ade2570c268ccff5d0ee753e2d2319ab67a47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 13/36] fix: setting a String to undecodable bytes raised
 UnicodeDecodeError

---
 flatland/schema/scalars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index f5d7167..97a8346 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -180,10 +180,14 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        if self.strip:
+            return value.strip()
         else:
-            return six.text_type(value)
+            return value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From f3cb6e43ee0c32b58789955f2a200a00d551d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 14/36] fix: an element assigned to a sequence index kept its
 old parent

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..01976b4 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From 8801bc2675991ca1cc49af0c8af0da1beebe7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 15/36] fix: assigning an element to a list index stringified
 it into the old member

---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 01976b4..e2552ee 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -495,8 +495,12 @@ class List(Sequence):
             list.__setitem__(self, index, value)
             self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            if isinstance(value, Element):
+                slot = list.__getitem__(self, index)
+                slot.element = value
+                value.parent = slot
+            else:
+                self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From fc337d48456ac6376d9482d1c7ae961ce30cbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 16/36] fix: List.pop returned the internal slot instead of the
 member

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index e2552ee..b04b5d2 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -519,7 +519,7 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        value = list.pop(self, index).element
         self._renumber()
         value.parent = None
         return value
-- 
2.43.0


From 3f3a8c31d726fd30da140e743bd16c3e6337eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 17/36] fix: in-place addition put raw values into sequences

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index b04b5d2..1666693 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From 1c6c1509b4adc6d12951e20caea0a4d46cb2fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 18/36] fix: popping an inherited property from an element
 removed it from the class

---
 flatland/schema/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..057f0fc 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -201,9 +201,13 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self.local[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
-- 
2.43.0


From 1f7ba57adf1abdc1faba113c2537e0241d4f983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 19/36] fix: setdefault on a property deleted from an element
 returned the deletion marker

---
 flatland/schema/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 057f0fc..d8a2ff6 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -213,7 +213,8 @@ class _InstanceLookup(DictLike):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self.local[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From ea6beb6844947153ffa40c8c56151a70f54de9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 20/36] fix: setdefault on class properties ignored inherited
 values and returned the deletion marker

---
 flatland/schema/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index d8a2ff6..fb4c05f 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self._base_frame[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 48fe18242b9a45c43680a8ede26a9b90d5a312df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 21/36] fix: importing flat pairs reset fields whose name is a
 prefix of another field's name

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 1666693..3ee3494 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -864,7 +864,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 14d4fc66531dd4dbc2b047f61160b0790ec2af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 22/36] fix: set_by_object dropped renamed attributes that were
 also listed in omit

---
 flatland/schema/containers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 3ee3494..7c96e92 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1080,13 +1080,13 @@ class Dict(Mapping, dict):
         """
         fields = set(six.iterkeys(self))
         attributes = fields.copy()
-        if rename:
-            rename = list(to_pairs(rename))
-            attributes.update(key for key, value in rename
-                                  if value in attributes)
         if omit:
             omit = list(omit)
             attributes.difference_update(omit)
+        if rename:
+            rename = list(to_pairs(rename))
+            attributes.update(key for key, value in rename
+                                  if value in fields)
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From 34dde30226088773451624cca9e59d717ad689a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 23/36] fix: clamp out of range slice bounds in Sequence and
 List

Python 2 adds the length to negative slice bounds before calling
__getslice__, __setslice__ and __delslice__; bounds that are still negative
lie before the start and must not be read as counted from the end again.
---
 flatland/schema/containers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 7c96e92..42e56c2 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -340,7 +340,8 @@ class Sequence(Container, list):
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-        self.__setitem__(slice(i, j), value)
+        # i and j already had the length added if they were negative
+        self.__setitem__(slice(max(i, 0), max(j, 0)), value)
 
     def remove(self, value):
         """Remove member with value *value*.
@@ -491,7 +492,8 @@ class List(Sequence):
         return list.__getitem__(self, index).element
 
     def __getslice__(self, i, j):
-        return self.__getitem__(slice(i, j))
+        # i and j already had the length added if they were negative
+        return self.__getitem__(slice(max(i, 0), max(j, 0)))
 
     def __setitem__(self, index, value):
         if isinstance(index, slice):
@@ -507,7 +509,7 @@ class List(Sequence):
                 self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
-        return self.__setitem__(slice(i, j), sequence)
+        return self.__setitem__(slice(max(i, 0), max(j, 0)), sequence)
 
     def __iter__(self):
         for i in list.__iter__(self):
@@ -520,7 +522,7 @@ class List(Sequence):
         self._renumber()
 
     def __delslice__(self, i, j):
-        return self.__delitem__(slice(i, j))
+        return self.__delitem__(slice(max(i, 0), max(j, 0)))
 
     def pop(self, index=-1):
         value = list.pop(self, index).element
-- 
2.43.0


From 1315a880330cdbedee6a47edde5f2e960cb2334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 24/36] fix: fq_name of Array members is their index

Members of sequences without slots were named by their own name (or failed
with a TypeError when unnamed), which el() can not resolve.
---
 flatland/schema/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..9236824 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,6 +475,13 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
+            elif isinstance(element.parent, list):
+                # members of sequences without slots are indexed by position
+                for index, member in enumerate(element.parent):
+                    if member is element:
+                        parts.append(six.text_type(index))
+                        break
+                continue
             parts.append(element.name)
         return sep + sep.join(parts)
 
-- 
2.43.0


From d25815f0f10ef215e3cf3e1a066420227ec06165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 25/36] fix: looking up a child of a list slot raised
 NotImplementedError

A path such as '../x' evaluated on a list member reaches the member's slot,
which did not implement _index().
---
 flatland/schema/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 42e56c2..1dc9fa6 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -421,6 +421,9 @@ class ListSlot(Container, Slot):
         self.element = element
         element.parent = self
 
+    def _index(self, name):
+        raise IndexError(name)
+
     @property
     def u(self):
         return self.element.u
-- 
2.43.0


From 95aca69745ad625aa6704dc173a57b15eb45b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 26/36] fix: a flat pair addressing a container member of a
 list itself raised

Importing ('l_0', 'v') into a List 'l' of Dicts, Lists, named Arrays or
Compounds hands the member a pair with a None key, which these types could
not handle.
---
 flatland/schema/containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 1dc9fa6..cb4353e 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -577,6 +577,9 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
+            if key is None:
+                # addresses this list itself, which has no flat value
+                continue
             m = regex.match(key)
             if not m:
                 continue
@@ -682,7 +685,7 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
@@ -848,6 +851,8 @@ class Mapping(Container, dict):
         return converted
 
     def _set_flat(self, pairs, sep):
+        # No flat representation of mappings, ignore.
+        pairs = [pair for pair in pairs if pair[0] is not None]
         if self.name is None:
             possibles = pairs  # accept all
         else:
-- 
2.43.0


From 056572b8e5b1205866754e762a586e906c5d8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 27/36] fix: arrays gained a blank member from flat pairs that
 match nothing

A pair whose key merely started with the array's name (or, for an unnamed
array of unnamed members, any pair at all) appended an unset member.
---
 flatland/schema/containers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index cb4353e..ce12691 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -671,29 +671,26 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
-                    continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
+                    continue
+                if prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
-            regex = re.compile(u'^(%s(?:%s|$))' % (
+            regex = re.compile(u'^(%s(?:%s|\\Z))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
                 m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
-                    continue
-                elif remainder and not child_name:
+                if remainder != child_name:
                     continue
-                elif prune and value == u'' and remainder == child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From 659931e83450deb9596d065c34654099337f1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 28/36] fix: list indexes followed by a newline are not flat
 list keys

'$' also matches before a trailing newline, so 'name_0<newline>' created a
blank member.
---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ce12691..6a8171d 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -565,10 +565,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
-- 
2.43.0


From 8f1b19abf3706f46c03d5f9852fe9ca4d71cf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 29/36] fix: flatten listed the members of a nested
 JoinedString

children_flattenable was only honoured for the element flatten() was called
on, though only the joined text of a JoinedString represents it.
---
 flatland/schema/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 9236824..86a3741 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -702,7 +702,8 @@ class Element(_BaseElement):
         if self.children_flattenable:
             pairs.extend((e.flattened_name(sep), value(e))
                          for e in self.all_children
-                         if e.flattenable)
+                         if e.flattenable and
+                         all(p.children_flattenable for p in e.parents))
         return pairs
 
     def set(self, value):
-- 
2.43.0


From 7ca303a7585673cebafa83276c18f5f78aefbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 30/36] fix: unnamed scalars did not accept their own flattened
 name

An unnamed scalar exports the key u'' but importing that pair had no effect.
---
 flatland/schema/scalars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 97a8346..8828769 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -122,7 +122,8 @@ class Scalar(Element):
 
     def _set_flat(self, pairs, sep):
         for key, value in pairs:
-            if key == self.name:
+            # the flattened name of an unnamed element is u''
+            if key == self.name or (key == u'' and self.name is None):
                 self.set(value)
                 break
 
-- 
2.43.0


From 875e99189203d2175b53f28f103d049a78f5f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 31/36] fix: JoinedString did not split a text default

set_default() appended each character of a default such as u'a,b'.
---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..c89a609 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -319,6 +319,11 @@ class JoinedString(Array, String):
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     @property
     def value(self):
         """A read-only :attr:`separator`-joined string of child values."""
-- 
2.43.0


From 3c118d6f669416bb23e35c75d0cde07242f7d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 32/36] fix: MapEqual raised TypeError with its default
 transform

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 13fece9079b4bd186518d975a7ddad261f7c0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 33/36] fix: expanding a message raised TypeError when the
 state is a list or text

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From de03d0f74106e2f0ec3934bafde1675d4e319cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:15 +0000
Subject: [PATCH 34/36] fix: member count validators measured the text of a
 MultiValue or JoinedString

---
 flatland/validation/containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..ce3a35d 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,8 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
-        if self.minimum <= length <= self.maximum:
+        if self.minimum <= len(element) <= self.maximum:
             return True
 
         message = 'exact' if self.minimum == self.maximum else 'range'
-- 
2.43.0


From d6a54533c5767835b1e4ab0e5c5d42dbb2526f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 35/36] fix: assigning None to a DateYYYYMMDD kept the old
 parts or raised

---
 flatland/schema/compound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index c89a609..7f16394 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -235,7 +235,8 @@ class DateYYYYMMDD(Compound, Date):
     def explode(self, value):
         try:
             value = Date.adapt(self, value)
-
+            if value is None:
+                raise AdaptationError()
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
                     getattr(value, attrib))
-- 
2.43.0


From 4508858c9bf7b2c86b37311df6de9776f365feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 36/36] fix: an option with its own control attribute inside a
 bound select raised ValueError in the genshi filter

---
 flatland/out/genshi.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..5b20dd8 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -332,7 +332,18 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                substream = list(substream)
+                if (substream[0][0] is START and substream[0][1][0] == qname
+                    and any(isinstance(d, ControlAttribute)
+                            for d in directives)):
+                    # control attributes apply to the tag itself, and must
+                    # not find it wrapped in another directive
+                    directives = [Binding(u'', bind=bind)] + list(directives)
+                    substream[1:] = _bind_unbound_tags(
+                        substream[1:], qname, bind)
+                else:
+                    substream = list(
+                        _bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
-- 
2.43.0

