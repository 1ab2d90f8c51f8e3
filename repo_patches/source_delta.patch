From 3d69de8c2127959d383ff584a7dd9efd1c6b78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 01/35] fix: an only clause on an unknown value rejects the
 class even without a report

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..d815f51 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -656,7 +656,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From 733fcb52e396f588baf813cb3d96ed28ed6cbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 02/35] fix: cyclic replacements are reported and long acyclic
 ones are resolved

Self referencing values used to loop for ever, and footprints with more than
50 attributes (or 10 chained attributes met in the wrong order) could not be
resolved at all.
---
 src/footprints/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index d815f51..f4c6259 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -447,14 +447,21 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        # In the worst case (chained dependencies met in reverse order), each round over
+        # the remaining attributes settles only one of them.
+        if nbpass > max(50, len(guess) * (len(guess) + 1) // 2):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
         guessk = guess[k]
 
+        nbsub = 0
         changed = 1
         while changed:
+            nbsub += 1
+            if nbsub > 1000:
+                logger.error('Replacement of attribute %s is probably cycling... %d tries ?', k, nbsub)
+                raise FootprintMaxIter('Too many Footprint replacements')
             changed = 0
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
-- 
2.43.0


From 94493ddd3588131c8afed508d5bb3202a5e4ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 03/35] fix: substituted values are inserted literally (no
 backslash processing)

---
 src/footprints/__init__.py | 9 ++++++---
 src/footprints/util.py     | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f4c6259..b425310 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,8 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            newvalue = myautofmt(starter)
+            guessk = replattr.sub(lambda mobj: newvalue, guessk, 1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -504,7 +505,8 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                newvalue = myautofmt(guess[replk])
+                                guessk = replattr.sub(lambda mobj: newvalue, guessk, 1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -512,7 +514,8 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            newvalue = myautofmt(extras[replk])
+                            guessk = replattr.sub(lambda mobj: newvalue, guessk, 1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..44b9c47 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 5aa31c4365cb7c58681e03ca58d41e8d4240842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 04/35] fix: cyclic remap definitions no longer hang the
 resolution

---
 src/footprints/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b425310..ffcf2a3 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -584,8 +584,11 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            remapped = set()
+            while (guess[k].__hash__ is not None and guess[k] in kdef['remap'] and
+                    guess[k] not in remapped):
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                remapped.add(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
-- 
2.43.0


From 09b566aff0c450341d8eab58ed825957afc04a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 05/35] fix: a value that is not a class is rejected by an
 isclass attribute

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ffcf2a3..bf8fccd 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -594,7 +594,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
-- 
2.43.0


From 5fdcd541929614ac7a62499865d33bf9073c89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 06/35] fix: unhashable values do not make the resolution crash

---
 src/footprints/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index bf8fccd..3e85611 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -532,10 +532,13 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
-            return True
-        else:
-            return bool([x for x in values if x == item])
+        try:
+            if item in values:
+                return True
+        except TypeError:
+            # The item is not hashable
+            pass
+        return bool([x for x in values if x == item])
 
     def resolve(self, desc, **kw):
         """Try to guess how the given description ``desc`` could possibly match the current footprint."""
@@ -585,7 +588,7 @@ class Footprint:
             attr_seen.add(k)
 
             remapped = set()
-            while (guess[k].__hash__ is not None and guess[k] in kdef['remap'] and
+            while (kdef['remap'] and guess[k].__hash__ is not None and guess[k] in kdef['remap'] and
                     guess[k] not in remapped):
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 remapped.add(guess[k])
-- 
2.43.0


From b1c3ba5a3bde3b93d227cc355b5353f8cc8bef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 07/35] fix: a plain string is a valid only clause

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3e85611..cce529d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -657,7 +657,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From 5a6b2d7c28bcadcb0383b52090e95bf1b2157d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 08/35] fix: unset optional attributes are still None after
 being unpickled

---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index cce529d..9bd242c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -951,6 +951,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # The UNKNOWN constant is recognised by its identity, that may be lost by pickling
+        for k, v in self._attributes.items():
+            if isinstance(v, str) and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From b7d64492487092a2ea6407a83e5960a58e01f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 09/35] fix: every declared value or outcast is converted to
 the attribute type

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 9bd242c..7e376ff 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From e6196d5009cab3a0bc4980cf2a93b9bfe4ab066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 10/35] fix: list2dict does not alter the footprint definition
 given by the user

---
 src/footprints/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 44b9c47..55854be 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -29,8 +29,9 @@ rangex = timeintrangex
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-    iterable contents of these entries.
+    iterable contents of these entries. The result is a new dictionary.
     """
+    a = dict(a)
     for k in klist:
         if k in a and isinstance(a[k], (list, tuple)):
             ad = dict()
-- 
2.43.0


From 5b844ad57ccdb7cbd208a03e14ce68b564a179e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 11/35] fix: remapped or unhashable values are consistent with
 the fasttrack index

---
 src/footprints/collectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..ab002eb 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -6,6 +6,7 @@ The footprints proxy could make some part of the interface visible as well.
 
 from weakref import WeakSet
 import collections
+import collections.abc
 import logging
 
 from bronx.fancies import dump, loggers
@@ -150,8 +151,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values (that can not be extended by a remap) ?
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
@@ -222,7 +223,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if self._fasttrack_attr:
             objgroup_list = list()
             for k, v in desc.items():
-                if k in self._fasttrack_attr:
+                if k in self._fasttrack_attr and isinstance(v, collections.abc.Hashable):
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
-- 
2.43.0


From 03c0e88681ab20230de4e1e67ccb16f3a0148b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 12/35] fix: clear and pop keep the fasttrack index of the
 collector up to date

---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index ab002eb..a9383dd 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -268,6 +268,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary element from the catalog"""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Completely clear the list of items previously recorded in this catalog."""
+        super().clear()
+        self._set_fasttrack(self._fasttrack_attr)
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 319c07941135d798d4287351501028c224e7f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 13/35] fix: equal FPDict (or FPSet) objects have equal hash
 values

---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From fddbb919b1a4ad946357879c606a4595b387e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 14/35] fix: nested unhashable values are consistent with the
 fasttrack index

---
 src/footprints/collectors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a9383dd..86bd4d5 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -6,7 +6,6 @@ The footprints proxy could make some part of the interface visible as well.
 
 from weakref import WeakSet
 import collections
-import collections.abc
 import logging
 
 from bronx.fancies import dump, loggers
@@ -223,7 +222,12 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if self._fasttrack_attr:
             objgroup_list = list()
             for k, v in desc.items():
-                if k in self._fasttrack_attr and isinstance(v, collections.abc.Hashable):
+                if k in self._fasttrack_attr:
+                    try:
+                        hash(v)
+                    except TypeError:
+                        # Such a value can not be indexed
+                        continue
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
-- 
2.43.0


From 936fd972cfccbde9c7d57e93fef002a579418d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 15/35] fix: nested unhashable values are not remapped

---
 src/footprints/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7e376ff..c676e65 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -540,6 +540,15 @@ class Footprint:
             pass
         return bool([x for x in values if x == item])
 
+    @staticmethod
+    def _hashable(item):
+        """Check that item (including its content) is hashable."""
+        try:
+            hash(item)
+        except TypeError:
+            return False
+        return True
+
     def resolve(self, desc, **kw):
         """Try to guess how the given description ``desc`` could possibly match the current footprint."""
         opts = dict(fatal=setup.fatal, fast=setup.fastmode)
@@ -588,7 +597,7 @@ class Footprint:
             attr_seen.add(k)
 
             remapped = set()
-            while (kdef['remap'] and guess[k].__hash__ is not None and guess[k] in kdef['remap'] and
+            while (kdef['remap'] and self._hashable(guess[k]) and guess[k] in kdef['remap'] and
                     guess[k] not in remapped):
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 remapped.add(guess[k])
-- 
2.43.0


From 87c44615693c7ae910a1f21bcd48f15d733ce7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 16/35] fix: the dictionary and XML views of a log always
 reflect its actual content

Includes the clear and reduce_to_last methods (the later one used to fail), that
also preserve the maximum length of the log.
---
 src/footprints/reporting.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..8a81601 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -211,7 +211,13 @@ class FootprintLog(getbytag.GetByTag):
         self._current = None
         self._xml = None
         self._dict = dict()
-        self._touch = False
+        self._dict_stamp = None
+        self._touch_all()
+
+    def _touch_all(self):
+        """The cached views (XML and dictionary) are outdated."""
+        self._touch_xml = True
+        self._touch_dict = True
 
     def info(self):
         """Return a simple description as a string."""
@@ -234,11 +240,16 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._touch_all()
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        last = self.last
+        self._log.clear()
+        if last is not None:
+            self._log.append(last)
+        self._touch_all()
 
     @property
     def last(self):
@@ -254,7 +265,7 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
+        self._touch_all()
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -263,7 +274,7 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
+        self._touch_all()
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -271,7 +282,7 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
+        self._touch_all()
 
     def add(self, **kw):
         """
@@ -310,17 +321,18 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
+        if not self._xml or self._touch_xml or force:
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
-            self._touch = False
+            self._touch_xml = False
         return self._xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
+        if not self._dict or self._touch_dict or force or stamp != self._dict_stamp:
             self._dict = dict()
+            self._dict_stamp = stamp
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
@@ -328,7 +340,7 @@ class FootprintLog(getbytag.GetByTag):
                 else:
                     key += '_{:04d}'.format(i + 1)
                 self._dict[key] = item.as_dict()
-            self._touch = False
+            self._touch_dict = False
         return self._dict
 
     def fulldump(self, stamp=False):
-- 
2.43.0


From 4e3d835a792552123a7ebbf8ec3f4284f42b1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 17/35] fix: ordering of the factorized reports

---
 src/footprints/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8a81601..5957041 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -500,7 +500,7 @@ class FactorizedReport:
         order = list()
         other = list(dic.keys())
         for val in self.interestingValues(list(self.keys())[depth]):
-            for v in other:
+            for v in list(other):
                 if v[1].startswith(val):
                     order.append(v)
                     other.remove(v)
@@ -529,7 +529,7 @@ class FactorizedReport:
                     dic = dic[(kj, v)]
                     break
             if v is None:
-                raise KeyError("Ordering key not found: {:s}".format(k))
+                raise KeyError("Ordering key not found: {!s}".format(k))
         info = kw.get('args', '')
         dic[tagvalue] = str(info)
 
-- 
2.43.0


From 07b0c43eb5abd6d4608c78fd5e9d9922e36d8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 18/35] fix: a priority level is not equal to an unknown
 level's name

---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From e9a259d78ae6808f3bf70cf6ea43c63a685e4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 19/35] fix: an insertion relative to an invalid level leaves
 the priority set unchanged

---
 src/footprints/priorities.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..83c2f91 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,17 +202,18 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        ref = after if after is not None else before
+        if ref is not None:
+            ref = (ref.tag if isinstance(ref, PriorityLevel) else ref).upper()
+            if ref == tag or ref not in self._levels:
+                raise ValueError('No such level priority: {!s}'.format(ref))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-            if isinstance(after, PriorityLevel):
-                after = after.tag
-            self._levels.insert(self._levels.index(after.upper()) + 1, tag)
+            self._levels.insert(self._levels.index(ref) + 1, tag)
         elif before is not None:
             self._levels.remove(tag)
-            if isinstance(before, PriorityLevel):
-                before = before.tag
-            self._levels.insert(self._levels.index(before.upper()), tag)
+            self._levels.insert(self._levels.index(ref), tag)
         return self.level(tag)
 
 
-- 
2.43.0


From 4b01cb02affc6de520aa6ce87c3a11e21587fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 20/35] fix: the priority levels of a merged footprint still
 refer to their actual set

---
 src/footprints/priorities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 83c2f91..416e824 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,11 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __deepcopy__(self, memo):
+        # A level refers to its set (unless the set itself is being copied)
+        pset = memo.get(id(self._pset))
+        return self if pset is None else self.__class__(self._tag, pset)
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From 414c6cdf86971f20f998a2e8ae492002869fbd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 21/35] fix: deleting an attribute does not alter the other
 instances of the class

---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c676e65..24789d9 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1112,7 +1112,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if k not in self._attributes or self._attributes[k] != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..608d412 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if instance is not None and not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Missing attribute [' + self._attr + '] (read)')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -60,7 +65,6 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
 
     def __delete__(self, instance):
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From 0ac79596d9a7929f66f71be6fae370f2dcb35402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 22/35] fix: objects with unset weak attributes can be created
 and weak attributes cloned

---
 src/footprints/__init__.py   | 3 ++-
 src/footprints/access.py     | 2 +-
 src/footprints/collectors.py | 7 ++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 24789d9..e726ec3 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -655,7 +655,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 608d412..920377e 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -59,7 +59,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 86bd4d5..1bfa6a1 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -532,6 +532,7 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # NB: obj might not be hashable (e.g. a weak proxy). It is kept alive by the cache.
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From 71f5b3954e94fdd23317c10904c189ad84957b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 23/35] fix: values and outcast are allowed for class-valued
 attributes

---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e726ec3..c3792b9 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -208,7 +208,8 @@ class Footprint:
             fp['attr'][a]['outcast'] = set(fp['attr'][a].get('outcast', set()))
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
-            for autoreclass in ('values', 'outcast'):
+            # NB: the values of a class-valued attribute are classes, not instances of its type
+            for autoreclass in () if fp['attr'][a].get('isclass', False) else ('values', 'outcast'):
                 for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
-- 
2.43.0


From 1c676ffb7bf30cad341f8e2d7c5c495fb3a15917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 24/35] fix: an only clause on an unset optional attribute is
 not checked against UNKNOWN

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c3792b9..e398cc6 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -681,7 +681,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
-            if actualvalue is None:
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 6ff81a1e2235673fab762de7bca73d780ebd837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 25/35] fix: the documentation order depends on the visibility
 first, even with extreme doc_zorder values

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..23b678f 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, -item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From 0566e3c79fecf2627d5df50469f5b3a2648746f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 26/35] fix: a glob pattern must match the whole file name
 (trailing newline included)

---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 55854be..246f620 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -152,7 +152,7 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
 
 
 def expand(desc):
-- 
2.43.0


From a8e3a61697612cb72f3063911a0b5e976da2f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 27/35] fix: a bracket that follows an escaped backslash is not
 escaped in a glob's pattern

---
 src/footprints/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 246f620..87d877c 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -119,10 +119,12 @@ def _parse_globs(todo):
                 continue
         # Pattern processing
         else:
-            if (not curbuffer or curbuffer[-1] != '\\') and todo[0] == '{':
+            # A bracket is escaped by an odd number of backslashes
+            escaped = (len(curbuffer) - len(curbuffer.rstrip('\\'))) % 2
+            if not escaped and todo[0] == '{':
                 # Opening bracket detected
                 bracket_count += 1
-            elif (not curbuffer or curbuffer[-1] != '\\') and todo[0] == '}':
+            elif not escaped and todo[0] == '}':
                 # Closing bracket detected
                 if bracket_count:
                     bracket_count -= 1
-- 
2.43.0


From 6eb6d4e78f01682a23786f239997c8fb83c544f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 28/35] fix: a matching dictionary waits for the expansion of
 the value of its matching key

---
 src/footprints/util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 87d877c..5783958 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -157,6 +157,17 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
 
 
+def _pending_expansion(desc, key):
+    """Tell if the string or dictionary found in ``desc[key]`` has still to be expanded."""
+    value = desc[key]
+    if value.__class__.__name__.startswith('FP'):
+        return False
+    if isinstance(value, str):
+        return bool(re.search(r',|{glob:\w+:', value) or
+                    re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', value, re.IGNORECASE))
+    return isinstance(value, dict) and any(x in desc for x in value.keys())
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -288,7 +299,8 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
+                                _pending_expansion(d, dk)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From b6d8698a802df1085cc4fbee519cbb06bef81522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 29/35] fix: writing a value that is not a class in an isclass
 attribute raises a value error

---
 src/footprints/access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/access.py b/src/footprints/access.py
index 920377e..14c9f0d 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -41,7 +41,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             fpdef = fp.attr[self._attr]
             atype = fpdef.get('type', str)
             if fpdef.get('isclass', False):
-                if not issubclass(value, atype):
+                if not (isinstance(value, type) and issubclass(value, atype)):
                     raise ValueError('Attempt to set {:s} as a non compatible subclass {!s}'
                                      .format(self._attr, value))
             elif not isinstance(value, atype) and value is not None:
-- 
2.43.0


From 177389b590b0077d06d42281718140e630e1892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 30/35] fix: the fast track does not index the values that the
 resolution substitutes

---
 src/footprints/collectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 1bfa6a1..52d399d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -228,6 +228,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                     except TypeError:
                         # Such a value can not be indexed
                         continue
+                    if isinstance(v, str) and '[' in v:
+                        # Such a value may be substituted by the resolution
+                        continue
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
-- 
2.43.0


From 09d376fdbeec9403f919947c899e135bcb0b9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 31/35] fix: a value that can not be converted does not break a
 search with the fast track

---
 src/footprints/collectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 52d399d..3fd79db 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -238,9 +238,11 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
-                            v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                            conv_ok = v_conv is not None and v_conv in self._fasttrack_index[k]
+                        except Exception:
+                            # The resolution of each candidate deals with such a value
+                            conv_ok = False
+                        if conv_ok:
                             indexkey = v_conv
                         else:
                             # Ok we give up...
-- 
2.43.0


From 785f01f97bf7f85dc28b01a8f0fc8cfa5e49dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 32/35] fix: a class refused because of a collector's name is
 not registered in its other collectors

---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e398cc6..444a84d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -851,6 +851,7 @@ class FootprintBaseMeta(type):
             if cname in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From b0d4f076b145698bf93bda683f0aea2fc3c0a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 33/35] fix: the actual tag of a collector is also refused as
 an attribute name

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 444a84d..77ab71f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -848,7 +848,7 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if thisfp.allkeys() & {cname, collectors.Collector.tag_clean(cname)}:
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
         for cname in realcls._collector:
-- 
2.43.0


From c23549bb63d901604070685731b7f287b0d84c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 34/35] fix: a string that prevents the expansion keeps its
 type when glob parts are replaced

---
 src/footprints/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 5783958..9c87212 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,8 +60,12 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
+            replaced = newd[k]
             for g in globs.keys():
-                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
+                replaced = replaced.replace('[glob:' + g + ']', globs[g])
+            # The types that prevent any expansion are preserved
+            fptype = newd[k].__class__.__name__.startswith('FP')
+            newd[k] = newd[k].__class__(replaced) if fptype else replaced
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 9be8713901242aebca0bc122fee3ea45ace50ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 35/35] fix: the attribute map restricted to a name given as a
 string holds this name only

---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 3fd79db..c6a1289 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -446,7 +446,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0

