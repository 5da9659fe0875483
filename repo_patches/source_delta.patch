From 8a8f66172d7ba934bfa74c9a7a4ab9d966c815ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 01/41] fix: pathexpr returns the compiled expression once the
 cache is full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From a35edbdf5c8e740a9a13ee1a448e4d6300d94a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 02/41] fix: ".." in a path steps up to parents that are false
 in a boolean context

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..49dc049 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -64,7 +64,7 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
+                    if el.parent is not None:
                         el = el.parent
                 elif op is HERE:
                     pass
-- 
2.43.0


From c3bfafe5a9c427dfd0a130ca0ea4f0569deebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 03/41] fix: += on sequences wraps and adopts the new members

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..7db86c0 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From c85fe1ddf16c5ffaa9810d29c234a42d61e535f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/41] fix: assigning an element to a sequence index sets its
 parent

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 7db86c0..381354f 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -336,7 +336,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From 1e99db133e3ccfcf456a5309ee03dd2e136e62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 05/41] fix: assigning an element to a List index stores that
 element

---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 381354f..0cb8902 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -499,8 +499,12 @@ class List(Sequence):
             list.__setitem__(self, index, value)
             self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            if isinstance(value, Element):
+                slot = list.__getitem__(self, index)
+                slot.element = value
+                value.parent = slot
+            else:
+                self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From 06dd29ff6b74cb2acd5814c8b950cc9f628247a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 06/41] fix: List.pop returns the member element, not its slot

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0cb8902..1666693 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -523,7 +523,7 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        value = list.pop(self, index).element
         self._renumber()
         value.parent = None
         return value
-- 
2.43.0


From 31d0913eae3681e1f9c351659297fff14d4668e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 07/41] fix: Properties.setdefault honours inherited and
 deleted values

---
 flatland/schema/properties.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..53915b7 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,13 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            frame = self._base_frame
+            if frame.get(key) is Deleted:
+                frame[key] = default
+            return frame.setdefault(key, default)
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
@@ -209,6 +215,8 @@ class _InstanceLookup(DictLike):
         try:
             return self[key]
         except KeyError:
+            if self.local.get(key) is Deleted:
+                self.local[key] = default
             return self.local.setdefault(key, default)
 
     def update(self, *iterable, **values):
-- 
2.43.0


From d5c8b14b413b3f2a610a4f059b02353d45847bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 08/41] fix: popping a property of an instance leaves its class
 alone

---
 flatland/schema/properties.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 53915b7..823cd91 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -207,9 +207,14 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        # mask the value for this instance only; the class is shared
+        self.local[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
-- 
2.43.0


From d6ea5bc164ae54f3cb12af7a48b116a532e3c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 09/41] fix: Ref follows its target when the tree around it is
 replaced

---
 flatland/schema/scalars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..42eba32 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -582,7 +581,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From 3357b4976e0ff021533e98c3d5f4e68ab9a5a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 10/41] fix: String.set reports undecodable bytes as an
 adaptation failure

---
 flatland/schema/scalars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 42eba32..ed01d29 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -179,10 +179,14 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        if self.strip:
+            return value.strip()
         else:
-            return six.text_type(value)
+            return value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From 05abaf7478c31e53266a14ab209fd24b54da0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 11/41] fix: Scalar.set assigns value and u together or not at
 all

---
 flatland/schema/scalars.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index ed01d29..32049ee 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -70,26 +70,30 @@ class Scalar(Element):
         self.raw = value
         try:
             # adapt and normalize the value, if possible
-            value = self.value = self.adapt(value)
+            value = self.adapt(value)
         except AdaptationError:
-            self.value = None
             if value is None:
-                self.u = u''
+                ustr = u''
             elif isinstance(value, six.text_type):
-                self.u = value
+                ustr = value
             else:
                 try:
-                    self.u = six.text_type(value)
+                    ustr = six.text_type(value)
                 except UnicodeDecodeError:
-                    self.u = six.text_type(value, errors='replace')
+                    ustr = six.text_type(value, errors='replace')
+            self.value = None
+            self.u = ustr
             return False
 
         # stringify it, possibly storing what we received verbatim or a
         # normalized version of it.
         if value is None:
-            self.u = u''
+            ustr = u''
         else:
-            self.u = self.serialize(value)
+            ustr = self.serialize(value)
+        # assign both only once neither can fail: they change in tandem
+        self.value = value
+        self.u = ustr
         return True
 
     def adapt(self, value):
-- 
2.43.0


From 3c2b258dede59d6d98a7f458272ea5b1befa9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 12/41] fix: Mapping.set_flat matches whole field names, not
 prefixes

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 1666693..3ee3494 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -864,7 +864,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From c756635f608873c5f9603d37328470b41f339632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:13 +0000
Subject: [PATCH 13/41] fix: set_flat ignores pairs that address a List member
 container itself

---
 flatland/schema/containers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 3ee3494..bcd085a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -572,7 +572,7 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
-            m = regex.match(key)
+            m = regex.match(key) if key is not None else None
             if not m:
                 continue
             try:
@@ -677,7 +677,7 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key) if key is not None else None
                 if not m:
                     continue
                 remainder = key[m.end():] or None
@@ -843,6 +843,8 @@ class Mapping(Container, dict):
         return converted
 
     def _set_flat(self, pairs, sep):
+        # a None key addresses this element itself, which has no flat form
+        pairs = [pair for pair in pairs if pair[0] is not None]
         if self.name is None:
             possibles = pairs  # accept all
         else:
-- 
2.43.0


From 8cee87b1c25531a5c28d97173b2e68c92d81ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 14/41] fix: Array.set_flat ignores pairs that do not name its
 members

---
 flatland/schema/containers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index bcd085a..75fc5eb 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -669,7 +669,7 @@ class Array(Sequence):
                     continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
@@ -681,11 +681,9 @@ class Array(Sequence):
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
+                if remainder != child_name:
                     continue
-                elif remainder and not child_name:
-                    continue
-                elif prune and value == u'' and remainder == child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From 12b5f174f3028e2d402ad318833e9493459c496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 15/41] fix: a path slice that stops at 0 selects nothing

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 49dc049..6e9ab29 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -184,7 +184,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 76fb4c48c59c7df101b87d325385eb319e1cfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 16/41] fix: a date derived from a prepared one completes its
 own fields

---
 flatland/schema/compound.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..34ef8cb 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -195,13 +195,22 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # (completed, declared): the field_schema completed for a class, and what
+    # that class itself declared.
+    _completed_schema = (None, ())
+
     @classmethod
     def __compound_init__(cls):
         assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        completed, declared = cls._completed_schema
+        if cls.field_schema is not completed:
+            declared = cls.field_schema
+        # else inherited from a class that is prepared already: complete it
+        # anew, according to the attributes of this class.
+        if len(declared) == 3:
             return
 
-        fields = list(cls.field_schema)
+        fields = list(declared)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -214,6 +223,7 @@ class DateYYYYMMDD(Compound, Date):
             fields.append(Integer.named(u'day').using(format=u'%02i',
                                                       optional=optional))
 
+        cls._completed_schema = (fields, declared)
         cls.field_schema = fields
 
     #if any(not field.name for field in fields):
-- 
2.43.0


From daed307eac366f4d0a2909783e265151ba1acefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 17/41] fix: fq_name addresses sequence members by position

---
 flatland/schema/base.py       | 6 +++++-
 flatland/schema/containers.py | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..4621406 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,7 +475,7 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
-            parts.append(element.name)
+            parts.append(element.parent._index_of(element))
         return sep + sep.join(parts)
 
     def find(self, path, single=False, strict=True):
@@ -589,6 +589,10 @@ class Element(_BaseElement):
         except LookupError:
             raise KeyError('No element at %r' % (path,))
 
+    def _index_of(self, child):
+        """Return the name that :meth:`_index` finds *child* by."""
+        return child.name
+
     def _index(self, name):
         """Return a named child or raise LookupError."""
         raise NotImplementedError()
diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 75fc5eb..eb19677 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -286,6 +286,12 @@ class Sequence(Container, list):
             raise IndexError(name)
         return self[idx]
 
+    def _index_of(self, child):
+        for idx, element in enumerate(self.children):
+            if element is child:
+                return six.text_type(idx)
+        return child.name
+
     def append(self, value):
         """Append *value* to end.
 
-- 
2.43.0


From b6d931c13d172181bc35362111be270673e0bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:54 +0000
Subject: [PATCH 18/41] fix: a date derived while its base is being prepared
 completes its own fields

---
 flatland/schema/compound.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 34ef8cb..8800984 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -201,10 +201,13 @@ class DateYYYYMMDD(Compound, Date):
 
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
+        # read in the reverse of the order they are written in below: another
+        # thread may be preparing the class these are inherited from.
+        current = cls.field_schema
         completed, declared = cls._completed_schema
-        if cls.field_schema is not completed:
-            declared = cls.field_schema
+        assert len(current) < 4
+        if current is not completed:
+            declared = current
         # else inherited from a class that is prepared already: complete it
         # anew, according to the attributes of this class.
         if len(declared) == 3:
-- 
2.43.0


From 7ef22769bfe6e6f89b2377c8530f2f241caef680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 19/41] fix: flatten leaves out the parts of a nested
 JoinedString

---
 flatland/schema/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 4621406..f77354c 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -697,9 +697,18 @@ class Element(_BaseElement):
         else:
             pairs = []
         if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+            # like all_children, without what elements such as JoinedString
+            # represent with their own pair
+            seen, queue = set((id(self),)), collections.deque(self.children)
+            while queue:
+                e = queue.popleft()
+                if id(e) in seen:
+                    continue
+                seen.add(id(e))
+                if e.flattenable:
+                    pairs.append((e.flattened_name(sep), value(e)))
+                if e.children_flattenable:
+                    queue.extend(e.children)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From a77cfb42cd5623d3e706085a8c48fdff2934217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:04 +0000
Subject: [PATCH 20/41] fix: a List index in a flat key does not match before a
 newline

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index eb19677..6b39fd5 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -566,10 +566,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
-- 
2.43.0


From 42e7aa60b06a9a5d699bcfd79169b1ad172b07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 21/41] fix: setting a date to None clears its fields

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 8800984..581c247 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -251,7 +251,7 @@ class DateYYYYMMDD(Compound, Date):
 
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
-                    getattr(value, attrib))
+                    None if value is None else getattr(value, attrib))
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
-- 
2.43.0


From b72b8744d0f79995a64f540207b3c26354e182b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 22/41] fix: set_by_object reports errors raised by attribute
 getters

---
 flatland/schema/containers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 6b39fd5..10331ba 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1094,11 +1094,15 @@ class Dict(Mapping, dict):
             omit = list(omit)
             attributes.difference_update(omit)
 
-        possible = ((attr, getattr(obj, attr))
-                    for attr in attributes
-                    if hasattr(obj, attr))
+        def possible():
+            for attr in attributes:
+                try:
+                    value = getattr(obj, attr)
+                except AttributeError:
+                    continue
+                yield attr, value
 
-        sliced = keyslice_pairs(possible, include=include,
+        sliced = keyslice_pairs(possible(), include=include,
                                 omit=omit, rename=rename)
         final = dict((key, value)
                      for key, value in sliced
-- 
2.43.0


From c1b071eddc4a7de0754a3503b9d6d5abd7733b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 23/41] fix: set_by_object reads renamed attributes even if
 omitted, and no others than those included

---
 flatland/schema/containers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 10331ba..b79c750 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1086,13 +1086,16 @@ class Dict(Mapping, dict):
         """
         fields = set(six.iterkeys(self))
         attributes = fields.copy()
-        if rename:
-            rename = list(to_pairs(rename))
-            attributes.update(key for key, value in rename
-                                  if value in attributes)
+        if include:
+            include = list(include)
+            attributes.intersection_update(include)
         if omit:
             omit = list(omit)
             attributes.difference_update(omit)
+        if rename:
+            rename = list(to_pairs(rename))
+            attributes.update(key for key, value in rename
+                                  if value in fields)
 
         def possible():
             for attr in attributes:
-- 
2.43.0


From c2c1998140a33e7337a70f1f274da7552dec3a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 24/41] fix: validate(recurse=False) is false if a descent
 validator failed

---
 flatland/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index f77354c..08cba99 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -805,7 +805,7 @@ class Element(_BaseElement):
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
             # of descent validation
-            if up is not Unevaluated:
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
             return self.valid
 
-- 
2.43.0


From 073ec75e5d13d90d3ad0542ec65ac3b7a01ee827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 25/41] fix: validation messages work with a state that is a
 string or sequence

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From 4e7a2d9e716da585b95c0a9288f480dce6aa460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 26/41] fix: HasAtLeast, HasAtMost and HasBetween count the
 members of any sequence

---
 flatland/validation/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..59ea22e 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,7 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
+        length = len(element)
         if self.minimum <= length <= self.maximum:
             return True
 
-- 
2.43.0


From 95deff1c8eab16de8623772d6fbe85b573eb3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 27/41] fix: Generator.tag(name) is equivalent to the
 generator's own tag

---
 flatland/out/markup.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..579ab2c 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -8,6 +8,10 @@ import six
 _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
 
+# tags with a property of their own on Generator
+_known_tags = frozenset([u'form', u'input', u'textarea', u'button', u'select',
+                         u'option', u'label'])
+
 
 class Generator(Context):
     """General XML/HTML tag generator"""
@@ -197,10 +201,14 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        if tagname in _known_tags:
+            tag = getattr(self, tagname)
+        else:
+            tag = self._tag(tagname)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From e0efab64a443ec58431b4c3bd6cbe6f1dee92875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 28/41] fix: checkboxes and radio buttons without a value are
 left unchecked and unchanged

---
 flatland/out/generic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..cc256aa 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -130,12 +130,12 @@ def transform_value(tagname, attributes, contents, context, bind):
     if tagname == u'input':
         subtype = attributes.get(u'type', u'')
         if subtype in (u'radio', u'checkbox'):
-            if subtype == u'checkbox':
-                current = attributes.get(u'value')
-                if current is None and isinstance(bind, Boolean):
-                    attributes[u'value'] = current = bind.true
-            else:
-                current = attributes.get(u'value', u'')
+            current = attributes.get(u'value')
+            if (current is None and subtype == u'checkbox' and
+                isinstance(bind, Boolean)):
+                attributes[u'value'] = current = bind.true
+            if current is None:
+                return contents
 
             if isinstance(bind, Array):
                 toggle = current in bind
-- 
2.43.0


From 490d9924f35afb9a0f2beb1d70ae1cbc2d562665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 29/41] fix: options and checkable inputs are compared to the
 text of an Array's members

---
 flatland/out/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index cc256aa..c0da79b 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -138,7 +138,7 @@ def transform_value(tagname, attributes, contents, context, bind):
                 return contents
 
             if isinstance(bind, Array):
-                toggle = current in bind
+                toggle = current in [child.u for child in bind]
             else:
                 toggle = current == bind.u
             if toggle:
@@ -163,7 +163,7 @@ def transform_value(tagname, attributes, contents, context, bind):
         else:
             value = contents
         if isinstance(bind, Array):
-            toggle = value in bind
+            toggle = value in [child.u for child in bind]
         else:
             toggle = bind.u == value
         if toggle:
-- 
2.43.0


From 732caa0a2aec079dab7ab8f56198e01ab98fd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:24 +0000
Subject: [PATCH 30/41] fix: rendering a genshi template leaves the parsed
 template alone

An interpolated attribute that yields events was expanded in place in the
parsed template, so every later render repeated the data of the first.
---
 flatland/out/genshi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..7f721c7 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -275,7 +275,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
     for qname, value in attrs:
         if qname.namespace is None:
             if not isinstance(value, six.text_type):
-                value = _simplify_stream(value, ctxt, vars)
+                value = _simplify_stream(list(value), ctxt, vars)
                 attrs |= ((qname, value),)
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
-- 
2.43.0


From cad642c5af650e60b7c4a19971483a4a679966b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 31/41] fix: NANPphone formats numbers with an extension

---
 flatland/validation/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..43467ea 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,10 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]),
+                                    int(value[3:6]),
+                                    int(value[6:10]),
+                                    int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 9e4580509dce3c1a011a1a64ca193c878a13f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 32/41] fix: CreditCardNumber reports a card type that is not
 accepted

---
 flatland/ext/creditcard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..f8cab8d 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From c8b9eadcafea14de0c23cda8312efc1c63bfffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 33/41] fix: luhn10 of a negative number ends

---
 flatland/util/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..7a7a5be 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,9 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
+
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From 5bc74c1cb657a4f22d8e6e891ee73ed7d163c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 34/41] fix: HTTPURLValidator requires an http scheme by
 default, as documented

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From 2e4825cfc6bc6e0729e6a511b08f17f60af6c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 35/41] fix: HTTPURLValidator reports an unparseable URL as
 bad_format

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..ac6f398 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except Exception:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From b22840b9d0bdf68c222c9ab24b695ab5a276e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 36/41] fix: HTTPURLValidator reports required parts that are
 empty as missing

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index ac6f398..d5db309 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From 06027c34d8b3a174329ee110001ca04271868b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 37/41] fix: IsEmail rejects a domain with a trailing newline

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index d5db309..b3bdaa3 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 8f70ac1e56c6bd59aecd7d98b882f7502c95334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 38/41] fix: URLCanonicalizer re-writes the text of the element
 too

---
 flatland/validation/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index b3bdaa3..d18355e 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -338,4 +338,5 @@ class URLCanonicalizer(Validator):
             url[idx] = '' if current is not None else None
 
         element.value = self.urlparse.urlunparse(url)
+        element.u = element.serialize(element.value)
         return True
-- 
2.43.0


From c0b75b810b793f1d56ffd9f603688378bcde24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 39/41] fix: MapEqual works with its default transform

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 1a5adb40865ef08c12f5ee3ccb4debc05acd2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 40/41] fix: NANPnpa_nxx honours errors_to and keyword
 arguments

---
 flatland/validation/number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/number.py b/flatland/validation/number.py
index dc6081b..52dfc5e 100644
--- a/flatland/validation/number.py
+++ b/flatland/validation/number.py
@@ -36,8 +36,9 @@ class NANPnpa_nxx(Validator):
         assert isinstance(nxx_element, six.string_types)
         assert isinstance(errors_to, (six.string_types, type(None)))
 
-        Validator.__init__(self, *kw)
+        Validator.__init__(self, **kw)
 
+        self.errors_to = errors_to
         self.npa = npa_element
         self.nxx = nxx_element
         self.lookup = lookup
@@ -48,7 +49,7 @@ class NANPnpa_nxx(Validator):
         nxx = element.find(self.nxx, single=True).value
 
         if self.errors_to:
-            err = element.find(self.errors_to)
+            err = element.find(self.errors_to, single=True)
         else:
             err = element
 
-- 
2.43.0


From 718e6f112498c865b68b8aefdcc78d6e62841129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:01 +0000
Subject: [PATCH 41/41] fix: CreditCardNumber refuses text without any digits

---
 flatland/ext/creditcard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f8cab8d..4b001ec 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,11 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    if not digits:
+        return None
+
+    return int(digits)
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0

