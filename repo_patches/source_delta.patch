From 388608d6e86068a44aa3e0e5d2a9cb0601485c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 01/56] fix: convert every declared value of a footprint
 attribute

The set of values (or outcast values) was modified while being iterated on:
some of the declared values could be left unconverted.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..f0e25c2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From 28f89413334c6220c3e0b5e18827b6b54b1c9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 02/56] fix: insert substituted values verbatim

The substituted text was used as a regular expression template: backslashes
were interpreted ('\n', '\1'...) or raised an error.
---
 src/footprints/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f0e25c2..584512a 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -421,7 +421,8 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            repl = myautofmt(starter)
+            guessk = replattr.sub(lambda m: repl, guessk, count=1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -497,7 +498,8 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                repl = myautofmt(guess[replk])
+                                guessk = replattr.sub(lambda m: repl, guessk, count=1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -505,7 +507,8 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            repl = myautofmt(extras[replk])
+                            guessk = replattr.sub(lambda m: repl, guessk, count=1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
-- 
2.43.0


From 84881d6a3191dbdbfb8aec7a9eceb0870a22d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 03/56] fix: insert the parts of file names captured by globs
 verbatim

A captured part that contains backslashes was used as a regular expression
template.
---
 src/footprints/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..8191fbc 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = re.sub(r'\[glob:' + g + r'\]', lambda m: globs[g], newd[k])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 3e033e3a673282979c179c6bee465983402aa1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 04/56] fix: do not mistake long acyclic substitutions for
 cycles

The fixed limit of 50 passes was reached by footprints with more than 50
attributes, or by a chain of ten references visited in an adverse order.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 584512a..73a89ab 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -448,7 +448,8 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        # Without any cycle, each sweep over the pending attributes solves one of them (at least)
+        if nbpass > max(50, len(guess) * (len(guess) + 1) // 2):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
-- 
2.43.0


From fa60c072870def856abf55c2cfdf34733040b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 05/56] fix: detect circular substitutions through extra
 parameters

An extra parameter that refers to itself (directly or not) or an attribute
that refers to itself led to an infinite loop.
---
 src/footprints/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 73a89ab..77ed4ca 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -454,10 +454,16 @@ class Footprint:
             raise FootprintMaxIter('Too many Footprint replacements')
 
         guessk = guess[k]
+        nbsubst = 0
+        maxsubst = 1000 + (guessk.count('[') if isinstance(guessk, str) else 0)
 
         changed = 1
         while changed:
             changed = 0
+            nbsubst += 1
+            if nbsubst > maxsubst:
+                logger.error('Resolve probably cycling too much... %d substitutions ?', nbsubst)
+                raise FootprintMaxIter('Too many Footprint replacements')
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
                 if mobj:
-- 
2.43.0


From 2267df9c70d698234ad9d1eb9c387a62b737356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 06/56] fix: circular remaps do not lead to an infinite loop

It could even occur with autoremap='first' and a repeated value.
---
 src/footprints/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 77ed4ca..49e41bb 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -584,8 +584,10 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            remapped = list()
+            while guess[k].__hash__ is not None and guess[k] in kdef['remap'] and guess[k] not in remapped:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                remapped.append(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
-- 
2.43.0


From 0bc175dde88c295c850695b2f27fdbd62b8fd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 07/56] fix: accept attribute values that are not actually
 hashable

The special containers define a hash method that raises a TypeError whenever
some of their items are not hashable (as weak proxies do): this led any query
to fail.
---
 src/footprints/__init__.py | 4 ++--
 src/footprints/util.py     | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 49e41bb..c74a1a8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -532,7 +532,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if util.ishashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
@@ -585,7 +585,7 @@ class Footprint:
             attr_seen.add(k)
 
             remapped = list()
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap'] and guess[k] not in remapped:
+            while util.ishashable(guess[k]) and guess[k] in kdef['remap'] and guess[k] not in remapped:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 remapped.append(guess[k])
                 guess[k] = kdef['remap'][guess[k]]
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 8191fbc..0159645 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -26,6 +26,15 @@ mktuple = _b_mktuple
 rangex = timeintrangex
 
 
+def ishashable(item):
+    """Check that *item* is actually hashable (i.e. including its contents)."""
+    try:
+        hash(item)
+    except TypeError:
+        return False
+    return True
+
+
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-- 
2.43.0


From fd5dd5ab7f930c25c821357a59cc77c3fb5c7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 08/56] fix: equal FPDict or FPSet objects have the same hash

The hash depended on the insertion order.
---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 6efa96067dd1cd81d749d722696b4b78f7b3938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 09/56] fix: weak attributes may be unset or already be weak
 proxies

An optional weak attribute without any value, or a clone of an object with a
weak attribute, led to a TypeError.
---
 src/footprints/__init__.py | 3 ++-
 src/footprints/access.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c74a1a8..9b378cb 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -642,7 +642,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..2da0af3 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -54,7 +54,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From 1aa6a5920cd55c804868a766d942e04fea7deadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 10/56] fix: accept weak proxies to footprint objects in
 descriptions

Weak proxies are not hashable, hence cannot be used as a key in the cache: the
clone of an object with a weak attribute failed.
---
 src/footprints/collectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..cfce2bb 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -12,7 +12,7 @@ from bronx.fancies import dump, loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -516,6 +516,8 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
+        if not util.ishashable(obj):  # e.g. a weak proxy
+            return obj.footprint_as_shallow_dict()
         if obj not in self._shallow_cache:
             self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
         return self._shallow_cache[obj]
-- 
2.43.0


From 79155f6006e088371e286debb2dd208de4db48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 11/56] fix: deleting an attribute only affects the object
 itself

The descriptor, shared by all the objects of the class, was altered: the
attribute was no longer usable with any of them.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 9b378cb..9a523c3 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1095,7 +1095,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if k not in self._attributes or self._attributes[k] != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 2da0af3..278b6df 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + ']')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -59,8 +64,9 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
     def __delete__(self, instance):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Deleted attribute [' + self._attr + '] (delete)')
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From 9f7caf5cb58ba93518b3f6a8aae0d0a0c327bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 12/56] fix: unset attributes remain unset in unpickled objects

The UNKNOWN constant is tested by identity, which is lost when pickling.
---
 src/footprints/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 9a523c3..bb833ba 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -947,6 +947,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        for k, v in self._attributes.items():
+            if type(v) is str and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN  # The constant is always tested by identity
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 07fc3a6ec8c090f58a24fdb97f64f5fecd3c713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 13/56] fix: a value that is not a class does not match a class
 attribute

It led the whole query to fail (TypeError).
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index bb833ba..4b6ffa8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -593,7 +593,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
-- 
2.43.0


From 0eb796d5eb9782d4c65c5ff2a2ae85aada247e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 14/56] fix: a string is a single value in 'only' rules

It was considered as a sequence of characters.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4b6ffa8..00c1353 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -654,7 +654,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From 5c7239290304f63f3805865284b0b129a6339059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 15/56] fix: an 'only' rule about an unknown name just excludes
 the class

With the default reporting level (on error), the whole query failed.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 00c1353..71ac080 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -669,7 +669,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From afb984580ebed4301ea9ba427a771a9368620821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 16/56] fix: a priority level differs from an unknown name

The comparison raised an AttributeError.
---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 92a92860c98a505ab985f0c97873a96db607eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 17/56] fix: inherited levels remain attached to their priority
 set

Levels (priority or documentation visibility) found in a parent footprint were
deep-copied along with their set: later changes in the original set had no
effect on them.
---
 src/footprints/priorities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..d92c125 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,11 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __deepcopy__(self, memo):
+        """A level is only duplicated along with its set (otherwise it would be detached from it)."""
+        pset = memo.get(id(self._pset))
+        return self if pset is None else self.__class__(self._tag, pset)
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From fa3093cba4c536acf2255da9b02b44ccfc8d13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 18/56] fix: reduce_to_last and clear work properly on
 footprint logs

The former failed and the latter discarded the bound of the log, and left
the context of the previous history active.
---
 src/footprints/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..7390ad2 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -234,11 +234,15 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._current = None
+        self._touch = True
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touch = True
 
     @property
     def last(self):
-- 
2.43.0


From d2464fe1cdd6dae215fb214128bcea6d306891b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 19/56] fix: renderings of a footprint log are always
 up-to-date

The XML and dictionary forms shared a single 'touch' flag (consequently, one of
them could be outdated) and the dictionary did not depend on *stamp*.
---
 src/footprints/reporting.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 7390ad2..b3ed6cc 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -211,7 +211,9 @@ class FootprintLog(getbytag.GetByTag):
         self._current = None
         self._xml = None
         self._dict = dict()
-        self._touch = False
+        self._touch = 0  # Counts the changes made in the log
+        self._xml_key = None
+        self._dict_key = None
 
     def info(self):
         """Return a simple description as a string."""
@@ -236,13 +238,13 @@ class FootprintLog(getbytag.GetByTag):
         """Start a fresh new log history."""
         self._log.clear()
         self._current = None
-        self._touch = True
+        self._touch += 1
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
         while len(self._log) > 1:
             self._log.popleft()
-        self._touch = True
+        self._touch += 1
 
     @property
     def last(self):
@@ -258,7 +260,7 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
+        self._touch += 1
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -267,7 +269,7 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
+        self._touch += 1
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -275,7 +277,7 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
+        self._touch += 1
 
     def add(self, **kw):
         """
@@ -314,16 +316,16 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
+        if not self._xml or self._xml_key != self._touch or force:
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
-            self._touch = False
+            self._xml_key = self._touch
         return self._xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
+        if not self._dict or self._dict_key != (self._touch, stamp) or force:
             self._dict = dict()
             for i, item in enumerate(self._log):
                 key = item.name
@@ -332,7 +334,7 @@ class FootprintLog(getbytag.GetByTag):
                 else:
                     key += '_{:04d}'.format(i + 1)
                 self._dict[key] = item.as_dict()
-            self._touch = False
+            self._dict_key = (self._touch, stamp)
         return self._dict
 
     def fulldump(self, stamp=False):
-- 
2.43.0


From b967e81ebe2013c5a10d7378eba45c5acc9f11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 20/56] fix: iter_last yields distinct dictionaries

A single dictionary was updated again and again: the items already collected
by the caller were altered.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index b3ed6cc..286beb8 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -399,7 +399,7 @@ class StandardReport:
             for subkid in kid.childNodes:
                 dico['name'] = subkid.getAttribute('name')
                 dico['why'] = subkid.getAttribute('why')
-                yield dico
+                yield dico.copy()
 
 
 class FlatReport:
-- 
2.43.0


From 9cbd5ed52319fe9a2d172c3d5486611568b64989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 21/56] fix: nothing is reported when the reporting is off

Provided that the log was not empty, candidates and attributes were added to its
last entry (i.e. to the report of a former query).
---
 src/footprints/collectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index cfce2bb..45e35fc 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -318,7 +318,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = (None if self.report in (config.NO_REPORTING, config.ONERROR_REPORTING)
+                      else self.report_log)
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -344,7 +345,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = (None if self.report in (config.NO_REPORTING, config.ONERROR_REPORTING)
+                      else self.report_log)
         while requeue:
             requeue = False
             found = list()
-- 
2.43.0


From 3d8d78a2ce8aa04c84b2d6c48ad3440a21baadda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 22/56] fix: fasttrack does not discard classes that remap the
 attribute

A value which is remapped to an authorised one was not found in the index.
---
 src/footprints/collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 45e35fc..b2a258f 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -150,8 +150,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values (with remap, many other values are possible) ?
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
-- 
2.43.0


From 9cb3e9980bea74abd3df72dc9fe1d2298470693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 23/56] fix: fasttrack ignores values that are not hashable

They cannot be looked for in the index: the query failed (TypeError).
---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index b2a258f..9f32ded 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -222,7 +222,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if self._fasttrack_attr:
             objgroup_list = list()
             for k, v in desc.items():
-                if k in self._fasttrack_attr:
+                if k in self._fasttrack_attr and util.ishashable(v):
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
-- 
2.43.0


From c3fe9662b14cda47fb7e457c6842100d1e3c6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 24/56] fix: classes popped or cleared from a collector leave
 the fasttrack index

They were still considered as candidates.
---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 9f32ded..f4a0b8d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -267,6 +267,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary entry of the current catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Completely clear the list of classes previously recorded in this catalog."""
+        super().clear()
+        self._set_fasttrack(self._fasttrack_attr)
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From a2550e8fa6aa0612192b3b122de216684681ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 25/56] fix: a class whose definition is refused is not left in
 some collectors

All of the collectors' tags are checked before the class registers in any of
them.
---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 71ac080..3e4465f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -837,6 +837,7 @@ class FootprintBaseMeta(type):
             if cname in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 7fc53b441972e4a418c8b7a310773c1d3289b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 26/56] fix: dictionary matching waits for the expansion of the
 other key

If the dictionary came first in the description, it was matched against the raw
value (e.g. 'a,b', 'range(1,3)' or another dictionary): a KeyError was raised.
---
 src/footprints/util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 0159645..edd67fb 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -163,6 +163,17 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+def _to_be_expanded(value, desc):
+    """Check if *value* (a string or a dictionary) is still to be expanded in *desc*."""
+    if value.__class__.__name__.startswith('FP'):
+        return False
+    if isinstance(value, dict):
+        return any(k in desc for k in value)
+    return (isinstance(value, str) and
+            bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', value, re.IGNORECASE) or
+                 ',' in value or re.search(r'{glob:\w+:', value)))
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -294,7 +305,8 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
+                                _to_be_expanded(dv, d)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From d41b05e02f9fb202908022bdba3b4fc72a920a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 27/56] fix: a failing insertion leaves the priority set
 unchanged

With an unknown reference level (or the level itself), the level was removed
from the set, or added, before the failure.
---
 src/footprints/priorities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index d92c125..219def2 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -207,6 +207,11 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        ref = before if after is None else after
+        if ref is not None:
+            ref = ref.tag if isinstance(ref, PriorityLevel) else ref.upper()
+            if ref == tag or ref not in self._levels:
+                raise ValueError('Could not insert {!s} relatively to {!s}'.format(tag, ref))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-- 
2.43.0


From 93120e8a06b55692ebb35e03a3059c0d8f8a52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 28/56] fix: collectors refuse unknown priority levels

Any unknown level was mistaken for the 'none' level: for example,
discard_higher_level('typo') removed all of the classes, and reset_package_level
broke them.
---
 src/footprints/collectors.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f4a0b8d..efa172f 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -113,9 +113,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                 print('Bye...', x)
             self.discard(x)
 
+    @staticmethod
+    def _priority_level(tag):
+        """The priority level associated to ``tag`` (that must exist)."""
+        plevel = priorities.top.level(tag)
+        if plevel is None:
+            raise ValueError('No such level priority: {!s}'.format(tag))
+        return plevel
+
     def filter_higher_level(self, tag):
         """Find in current collector classes with priority level higher or equal to ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._priority_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() >= plevel]
 
     def discard_higher_level(self, tag, verbose=True):
@@ -127,7 +135,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def filter_lower_level(self, tag):
         """Find in current collector classes with priority level lower than ``level``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._priority_level(tag)
         return [cl for cl in self.items() if cl.footprint_pl() < plevel]
 
     def discard_lower_level(self, tag, verbose=True):
@@ -139,7 +147,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def reset_package_level(self, packname, tag):
         """Reset priority level current collector classes with name starting with ``packname``."""
-        plevel = priorities.top.level(tag)
+        plevel = self._priority_level(tag)
         for cl in self.filter_package(packname):
             fp = cl.footprint_retrieve()
             fp.priority['level'] = plevel
-- 
2.43.0


From 99b9f9ed2f7e6e1335b37216d8ab80248e1c9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 29/56] fix: a single attribute name is matched exactly in
 attribute maps

Any attribute whose name was a substring of it was selected.
---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index efa172f..2d109b4 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -446,7 +446,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0


From 43b588fada16423a86af82f44a88d0dfabb984a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 30/56] fix: list the values of an attribute whose type depends
 on the class

Values that cannot be compared with each other led to a TypeError.
---
 src/footprints/collectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 2d109b4..04ec9aa 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -494,7 +494,10 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if attrname in fp.attr:
                 for v in fp.get_values(attrname):
                     allvalues.add(v)
-        return sorted(allvalues)
+        try:
+            return sorted(allvalues)
+        except TypeError:
+            return sorted(allvalues, key=str)
 
     def report_dump(self, stamp=False):
         """Print a nicelly formatted dump report as a dict."""
-- 
2.43.0


From 81eaf489445d9f6c7d2a48f1e69b4ea14c4934a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 31/56] fix: report the actual reason why an attribute is
 rejected

A value that could not be converted was then reported as 'Not in values' (None)
and a null string as 'Missing value'.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3e4465f..939f0dd 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -610,7 +610,7 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                if guess[k] is not None and kdef['values'] and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
@@ -632,6 +632,7 @@ class Footprint:
                 logger.warning(' > Attr %s is a null string', k)
                 if k not in diags:
                     report.add(attribute=k, why=reporting.REPORT_WHY_INVALID)
+                    diags[k] = True
             if guess[k] is None:
                 attr_input.discard(k)
                 if k not in diags:
-- 
2.43.0


From 0a962cd065e4c41f3ac83567e66dfc2e7f40930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 32/56] fix: fasttrack looks the converted values up in its
 index

---
 src/footprints/collectors.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 04ec9aa..3c613e7 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -231,20 +231,20 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             objgroup_list = list()
             for k, v in desc.items():
                 if k in self._fasttrack_attr and util.ishashable(v):
+                    # A type conversion might be usefull
+                    k_type = self._fasttrack_type[k]
+                    try:
+                        v_conv = (v if k_type is None or isinstance(v, k_type) else
+                                  k_type(v, ** self._fasttrack_typeargs[k]))
+                    except Exception:
+                        # The conversion's failure will be dealt with during the resolution
+                        v_conv = None
                     # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
-                        indexkey = v
+                    if v_conv is not None and util.ishashable(v_conv) and v_conv in self._fasttrack_index[k]:
+                        indexkey = v_conv
                     else:
-                        # A type conversion might be usefull
-                        try:
-                            v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
-                            v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
-                            indexkey = v_conv
-                        else:
-                            # Ok we give up...
-                            indexkey = None
+                        # Ok we give up...
+                        indexkey = None
 
                     if indexkey is not None:
                         logger.debug('Fasttrack subsetting took place for key %s', k)
-- 
2.43.0


From 150c73dcf83532eaf64248e61a6601ddab1f4882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 33/56] fix: an attribute that refers to itself is a circular
 reference

---
 src/footprints/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 939f0dd..a121148 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -498,6 +498,9 @@ class Footprint:
                             logger.error('Actual defaults: %s', setup.defaults)
                             raise FootprintUnreachableAttr('Could not replace attribute ' + replk)
                     if replk in guess:
+                        if replk == k:
+                            logger.error('Attribute %s refers to itself: %s', k, guessk)
+                            raise FootprintMaxIter('Circular Footprint replacement: ' + k)
                         if replk not in todok:
                             changed = 1
                             if replm:
-- 
2.43.0


From 576992c58068435fd3ee9b7917df7146afa29313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 34/56] fix: a mandatory attribute is never left unset by a
 substitution

---
 src/footprints/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index a121148..db78c52 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -585,6 +585,11 @@ class Footprint:
                     guess[k] is None):
                 continue
 
+            if guess[k] is UNKNOWN and not kdef['optional']:
+                # e.g. a reference to an optional attribute without any value
+                guess[k] = None
+                continue
+
             attr_seen.add(k)
 
             remapped = list()
-- 
2.43.0


From 05822d32c5144739ead71df8d4e8517c73066c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 35/56] fix: a shallow copy does not share its attributes with
 the original object

---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index db78c52..7615281 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -953,6 +953,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __getstate__(self):
         d = self.__dict__.copy()
         del d['_observer']
+        d['_attributes'] = self._attributes.copy()  # Never shared with a (shallow) copy
         return d
 
     def __setstate__(self, state):
-- 
2.43.0


From 1ac88d40fcebc68651f883a4883bac74c0c79297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 36/56] fix: dead weak attributes do not break searches among
 the live objects

---
 src/footprints/__init__.py   | 2 +-
 src/footprints/collectors.py | 2 +-
 src/footprints/util.py       | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7615281..91455ea 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1110,7 +1110,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if k not in self._attributes or self._attributes[k] != resolved[k]:
+                if k not in self._attributes or not util.samevalues(self._attributes[k], resolved[k]):
                     rc = False
                     break
         return rc
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 3c613e7..bbb5d8a 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -435,7 +435,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         for item in self.instances:
             ok = True
             for k, v in kw.items():
-                if not hasattr(item, k) or getattr(item, k) != v:
+                if not hasattr(item, k) or not util.samevalues(getattr(item, k), v):
                     ok = False
                     break
             if ok:
diff --git a/src/footprints/util.py b/src/footprints/util.py
index edd67fb..d089135 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -35,6 +35,14 @@ def ishashable(item):
     return True
 
 
+def samevalues(a, b):
+    """Check that *a* and *b* are equal (a weak proxy to a dead object is not equal to anything)."""
+    try:
+        return not (a != b)
+    except ReferenceError:
+        return False
+
+
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-- 
2.43.0


From 9308465ff586cd97b7c3c337c7ec29229e0dd7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 37/56] fix: a clone keeps the values of its original, that are
 not processed again

---
 src/footprints/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 91455ea..50fd22c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -546,6 +546,7 @@ class Footprint:
         opts.update(kw)
         opts_fatal = opts['fatal']  # Shortcut for faster execution
         opts_fast = opts['fast']  # Shortcut for faster execution
+        opts_checked = opts.pop('checked', ())  # Attributes whose values are not to be processed again
         report = opts.pop('report', False) or setup.nullreport
         resolvecache = opts.pop('resolvecache', None)
         if resolvecache is None:
@@ -581,6 +582,9 @@ class Footprint:
             todokset.discard(k)
             kdef = attrs[k]
             nbpass += 1
+            if k in opts_checked:
+                attr_seen.add(k)
+                continue
             if (not self._replacement(nbpass, k, kfast, guess, extras, todok, todokfast, todokset) or
                     guess[k] is None):
                 continue
@@ -996,7 +1000,11 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         attrs = self._attributes.copy()
         if extra is not None:
             attrs.update(extra)
-        objcp = self.__class__(**attrs)
+        # The values that are not replaced have already been substituted, remapped, ...
+        checked = set(self._attributes).difference(extra or ())
+        attrs, u_attr_input, u_attr_seen = self._footprint.resolve(attrs,  # @UnusedVariable
+                                                                   fatal=True, checked=checked)
+        objcp = self.__class__(attrs, checked=True)
         if full:
             for a in [x for x in self.__dict__.keys() if not x.startswith('_')]:
                 setattr(objcp, a, getattr(self, a))
-- 
2.43.0


From 66c5b01544b818d2816cc1938d49880d18b3b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:30 +0000
Subject: [PATCH 38/56] fix: a failing rerank does not lose the priority level

---
 src/footprints/priorities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 219def2..e7f7f1e 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -188,8 +188,9 @@ class PrioritySet:
         ipos = self._levels.index(tag) + upd
         if ipos < 0:
             ipos = 0
-        self._levels.remove(tag)
-        self._levels.insert(ipos, tag)
+        levels = [x for x in self._levels if x != tag]
+        levels.insert(ipos, tag)
+        self._levels = levels
         return self.level(tag)
 
     def remove(self, tag):
-- 
2.43.0


From 6f595abadcde3b645b338839aa22cec416532cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 39/56] fix: glob expressions match whole file names (including
 the newlines)

---
 src/footprints/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index d089135..eef5f0e 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -109,9 +109,9 @@ def _parse_globs(todo):
         fpattern = ''
         for c in cbuffer:
             if c == '*':
-                fpattern += '.*'
+                fpattern += '(?s:.*)'
             elif c == '?':
-                fpattern += '.'
+                fpattern += '(?s:.)'
             else:
                 fpattern += re.escape(c)
         return fpattern
@@ -168,7 +168,7 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
 
 
 def _to_be_expanded(value, desc):
-- 
2.43.0


From 824a8de20dfc2da158e61b0f3984ea0035b10a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 40/56] fix: brackets are literal characters in the texts with
 globs

---
 src/footprints/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index eef5f0e..d61b9c2 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -124,7 +124,7 @@ def _parse_globs(todo):
                 # Starting a glob pattern match
                 if curbuffer:
                     finalpattern += glob2re(curbuffer)
-                    finalglob += curbuffer
+                    finalglob += curbuffer.replace('[', '[[]')
                     curbuffer = ''
                 curname = gmatch.group(1)
                 if curname in glob_names:
@@ -166,7 +166,7 @@ def _parse_globs(todo):
     if curbuffer:
         # Save the remain
         finalpattern += glob2re(curbuffer)
-        finalglob += curbuffer
+        finalglob += curbuffer.replace('[', '[[]')
 
     return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
 
-- 
2.43.0


From 0bbc713db0341f0af3cff918dc0707d116cef4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 41/56] fix: globs that can not be combined raise a ValueError
 like any other malformed one

---
 src/footprints/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index d61b9c2..f94a3f4 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -168,7 +168,12 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer.replace('[', '[[]')
 
-    return glob_names, re.compile('^' + finalpattern + r'\Z'), finalglob
+    try:
+        finalre = re.compile('^' + finalpattern + r'\Z')
+    except re.error as e:
+        raise ValueError("Unable to combine the globs: {!s}".format(e))
+
+    return glob_names, finalre, finalglob
 
 
 def _to_be_expanded(value, desc):
-- 
2.43.0


From dcf9bdb80083518ed60bd67b1e906789176525cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 42/56] fix: parts captured by globs are not substituted again

---
 src/footprints/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index f94a3f4..5cd5528 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -76,8 +76,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', lambda m: globs[g], newd[k])
+            newd[k] = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From 2e9b926de2fc6aa7ba354544ab43a148c1ec9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 43/56] fix: file names (and parts of them) found by globs are
 not expanded again

---
 src/footprints/util.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 5cd5528..63a4f83 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -13,6 +13,8 @@ from bronx.stdtypes.date import timeintrangex
 from bronx.syntax import dictmerge as _b_dictmerge
 from bronx.syntax import mktuple as _b_mktuple
 
+from .stdtypes import FPStr
+
 #: No automatic export
 __all__ = []
 
@@ -76,7 +78,10 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            newd[k] = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
+            newv = re.sub(r'\[glob:(\w+)\]', lambda m: globs.get(m.group(1), m.group(0)), newd[k])
+            if newv != newd[k]:
+                # What comes from the file's name is not to be expanded
+                newd[k] = newv if _to_be_expanded(newd[k], desc) else _never_expanded(newv, desc)
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
@@ -186,6 +191,11 @@ def _to_be_expanded(value, desc):
                  ',' in value or re.search(r'{glob:\w+:', value)))
 
 
+def _never_expanded(value, desc):
+    """The *value* (a string), protected (whenever needed) against any expansion."""
+    return FPStr(value) if _to_be_expanded(value, desc) else value
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -309,7 +319,7 @@ def expand(desc):
                             globmap = dict()
                             for g in g_names:
                                 globmap[g] = m.group(g)
-                            repld.append(inplace(d, k, filename, globmap, globalindex=globalindex))
+                            repld.append(inplace(d, k, _never_expanded(filename, d), globmap, globalindex=globalindex))
                             globalindex += 1
                     newld.extend(repld)
                     somechanges = True
-- 
2.43.0


From bad8e45c7722e5e8d3a17845d49ba9ff1aee3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 44/56] fix: an only rule about an unset attribute excludes the
 class

The marker of unset attributes was compared (or matched) as if it were an
actual value: a class could be accepted because of it, or the query could
crash with a TypeError.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 50fd22c..c7d93ec 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -680,7 +680,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
-            if actualvalue is None:
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 5453ea5ac97c2802ed5b4f4281dc05bb5f810597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 45/56] fix: only rules find the configured defaults whatever
 the letter case

The get method of the dictionary that holds the configured defaults is
case-sensitive, unlike item access and membership.
---
 src/footprints/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c7d93ec..b921012 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -679,7 +679,9 @@ class Footprint:
             if after or before:
                 actualattr = k.partition('_')[-1]
 
-            actualvalue = rd.get(actualattr, params.get(actualattr, None))
+            actualvalue = rd.get(actualattr, None)
+            if actualattr not in rd and actualattr in params:
+                actualvalue = params[actualattr]  # Whatever the letter case
             if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
-- 
2.43.0


From a05ab2486d55f30f5bc636dd12a72de33a78de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 46/56] fix: flat reports keep all their items, whatever the
 sorting keys

Sorting on a key whose values are not texts (args) used to crash, and only the
last of the items of a class ending in the same branch was kept.
---
 src/footprints/reporting.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 286beb8..d102fbb 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -431,7 +431,7 @@ class FlatReport:
             done = True
             for k in self._sort:
                 if k in info:
-                    entry = k + ': ' + info.pop(k)
+                    entry = k + ': ' + str(info.pop(k))
                     if entry not in current:
                         current[entry] = dict()
                     current = current[entry]
@@ -441,11 +441,15 @@ class FlatReport:
                         break
             if done or skip:
                 focus = info.pop('focus')
+                details = None
                 if info:
-                    current[focus] = ' / '.join([str(x) + ': ' + str(info[x])
-                                                 for x in info.keys()])
+                    details = ' / '.join([str(x) + ': ' + str(info[x])
+                                          for x in info.keys()])
+                if current.get(focus, None) and details:
+                    # Several items end up here: keep them all
+                    current[focus] += ' | ' + details
                 else:
-                    current[focus] = None
+                    current[focus] = details
 
     def fulldump(self):
         """Print out the internal tree."""
-- 
2.43.0


From 176b5f7e3bee735899d1cac1aa021d272583e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 47/56] fix: check collector names and build docstrings before
 registering a class

A class whose attribute is equal to the actual tag of its collector (lower
case, without any final s) was accepted: looking for it in a description that
provides this attribute would crash. And a class whose definition ends with an
error (a wrong collector name, no docstring) was nonetheless registered.
---
 src/footprints/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b921012..c38c3c7 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -847,18 +847,10 @@ class FootprintBaseMeta(type):
         if not abstract:
             if realcls._explicit and not realcls.footprint_mandatory():
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
-        # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if {cname, collectors.Collector.tag_clean(cname)} & thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
-        for cname in realcls._collector:
-            thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
-                                           report_style=setup.report_style)
-            thiscollector.add(realcls, abstract=abstract)
-            if not abstract and thiscollector.register:
-                observer.get(tag=realcls.fullname()).register(thiscollector)
-                logger.debug('Register class %s in collector %s (%s)', realcls, thiscollector, cname)
 
         # Docstring building
         basedoc = realcls.__doc__
@@ -869,6 +861,15 @@ class FootprintBaseMeta(type):
             realcls.__doc__ += doc.format_docstring(realcls._footprint,
                                                     setup.docstrings)
 
+        # Add all classes in collectors but take into accout the abstract key (nothing should fail from now on)
+        for cname in realcls._collector:
+            thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
+                                           report_style=setup.report_style)
+            thiscollector.add(realcls, abstract=abstract)
+            if not abstract and thiscollector.register:
+                observer.get(tag=realcls.fullname()).register(thiscollector)
+                logger.debug('Register class %s in collector %s (%s)', realcls, thiscollector, cname)
+
         return realcls
 
 
-- 
2.43.0


From 7fe26a75059c1baf853b079ba57d72c37b61cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 48/56] fix: in docstrings, the visibility always prevails over
 the rank in the sort of the attributes

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..11aae26 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From 0c4f5c0d0106d422d7954aec0eac9ce25ae8be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 49/56] fix: an alias shared by several attributes is
 documented for all of them

---
 src/footprints/doc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 11aae26..404049e 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -2,7 +2,6 @@
 Footprint's docstring generator
 """
 
-import collections
 import re
 
 from bronx.fancies import dump
@@ -70,7 +69,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
 
     # Now the attributes...
     out.append('   Automatic parameters from the footprint:\n')
-    aliases = collections.OrderedDict()  # For later use
+    aliases = list()  # For later use
     # First sort alphabetically with respect to the attribute names
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
@@ -102,7 +101,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
         # Store aliases (they will be displayed later)
         if desc['alias']:
             for alias in desc['alias']:
-                aliases[alias] = attr
+                aliases.append((alias, attr))
     out.append('')
 
     # Only
@@ -122,7 +121,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     # Aliases
     if aliases:
         out.append("   Aliases of some parameters:\n")
-        for k, v in aliases.items():
+        for k, v in aliases:
             out.append("     * **{}** is an alias of {}.".format(k, v))
         out.append('')
 
-- 
2.43.0


From 174e763119c23e33e48d676153426c38dbb534ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:33 +0000
Subject: [PATCH 50/56] fix: the resolution cache mixed up distinct footprint
 objects that compare equal

---
 src/footprints/collectors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index bbb5d8a..24d9ba3 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -540,8 +540,7 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if not util.ishashable(obj):  # e.g. a weak proxy
-            return obj.footprint_as_shallow_dict()
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # Distinct objects may compare equal (and weak proxies are not hashable)
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From a02bce19964b96117b69e2063198397b6dffbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 51/56] fix: a value whose conversion overflows rejects the
 class, the query goes on

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c38c3c7..356258d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -616,7 +616,7 @@ class Footprint:
                     try:
                         guess[k] = ktype(guess[k], **kwargs)
                         # logger.debug(' > Attr %s reclassed = %s', k, guess[k])
-                    except (ValueError, TypeError, FootprintException):
+                    except (ValueError, TypeError, ArithmeticError, FootprintException):
                         # logger.debug(' > Attr %s badly reclassed as %s = %s', k, ktype, guess[k])
                         report.add(attribute=k, why=reporting.REPORT_WHY_RECLASS,
                                    args=(ktype.__name__, str(guess[k])))
-- 
2.43.0


From 15f823c43a3bdb2a529e7c72a8e329e07f383ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 52/56] fix: a query nested in a conversion no longer misleads
 the report of the query in progress

---
 src/footprints/__init__.py   |  5 +++--
 src/footprints/collectors.py |  8 ++++++--
 src/footprints/reporting.py  | 28 ++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 356258d..7f61e58 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1100,11 +1100,12 @@ class FootprintBase(metaclass=FootprintBaseMeta):
             report.add(collector=proxy.garbages)
         if report:
             report.add(candidate=cls)
+        thisreport = report.context() if report else report
         fp = cls._footprint
-        resolved, attr_input, u_attr_seen = fp.resolve(rd, fatal=False, report=report,  # @UnusedVariable
+        resolved, attr_input, u_attr_seen = fp.resolve(rd, fatal=False, report=thisreport,  # @UnusedVariable
                                                        resolvecache=resolvecache)
         if resolved and None not in resolved.values():
-            return (fp.checkonly(resolved, report, resolvecache=resolvecache),
+            return (fp.checkonly(resolved, thisreport, resolvecache=resolvecache),
                     attr_input)
         else:
             if mkreport:
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 24d9ba3..f7fd10d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -341,12 +341,14 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                       else self.report_log)
         while requeue:
             requeue = False
+            thisreport = report_log
             if self.report and report_log is not None:
                 report_log.add(collector=self)
+                thisreport = report_log.context()
             for item in self._fasttrack_subsetting(desc):
                 resolved, u_input = item.footprint_couldbe(desc,  # @UnusedVariable
                                                            resolvecache=resolvecache,
-                                                           report=report_log)
+                                                           report=thisreport)
                 if resolved:
                     return item(resolved, checked=True)
             if (self.report == config.ONERROR_REPORTING and
@@ -369,12 +371,14 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         while requeue:
             requeue = False
             found = list()
+            thisreport = report_log
             if self.report and report_log is not None:
                 report_log.add(collector=self)
+                thisreport = report_log.context()
             for item in self._fasttrack_subsetting(desc):
                 resolved, theinput = item.footprint_couldbe(desc,
                                                             resolvecache=resolvecache,
-                                                            report=report_log)
+                                                            report=thisreport)
                 if resolved:
                     found.append((item, resolved, theinput))
             if (not found and
diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index d102fbb..f082d93 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -77,6 +77,30 @@ class NullReport:
         if kw:
             self._blindlog.append(kw)
 
+    def context(self):
+        """There is no need to remember where this report stands."""
+        return self
+
+
+class FootprintLogContext:
+    """
+    Feed a footprint log from the entry that was the current one at creation time,
+    whatever has been recorded in between (e.g. by some nested resolution).
+    """
+
+    def __init__(self, log):
+        self._log = log
+        self._node = log.current()
+
+    def add(self, **kw):
+        """Add an entry to the log (see :meth:`FootprintLog.add`)."""
+        self._log.current(self._node)
+        return self._log.add(**kw)
+
+    def context(self):
+        """Remember the current entry of the underlying log."""
+        return self._log.context()
+
 
 class FootprintLogEntry:
     """
@@ -256,6 +280,10 @@ class FootprintLog(getbytag.GetByTag):
             self._current = node
         return self._current
 
+    def context(self):
+        """Return an object that feeds this log from the current active entry."""
+        return FootprintLogContext(self)
+
     def add_collector(self, node, **kw):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
-- 
2.43.0


From 27871b21cce594e1acb5a6d35c9344fea82310af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 53/56] fix: the restrictions (values, outcast) of a class
 valued attribute are classes: they are not instantiated

---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7f61e58..4e338b1 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -210,7 +210,7 @@ class Footprint:
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
                 for v in list(fp['attr'][a][autoreclass]):
-                    if not isinstance(v, ktype):
+                    if not isinstance(v, ktype) and not fp['attr'][a].get('isclass', False):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-- 
2.43.0


From 4c77cf2d687233b1e9cca733d5c284d9091869c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 54/56] fix: a clone keeps the optional attributes that were
 set to None

---
 src/footprints/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 4e338b1..65c26a8 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1005,6 +1005,9 @@ class FootprintBase(metaclass=FootprintBaseMeta):
             attrs.update(extra)
         # The values that are not replaced have already been substituted, remapped, ...
         checked = set(self._attributes).difference(extra or ())
+        for a in checked:
+            if attrs[a] is None and self.footprint_optional(a):
+                attrs[a] = UNKNOWN  # Set to None since then: the default is not to be used
         attrs, u_attr_input, u_attr_seen = self._footprint.resolve(attrs,  # @UnusedVariable
                                                                    fatal=True, checked=checked)
         objcp = self.__class__(attrs, checked=True)
-- 
2.43.0


From 4c49ea61d97f860688a87425e7b4b61e0e82536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 55/56] fix: values are tested against None by identity
 (whatever they compare to)

---
 src/footprints/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 65c26a8..6615db0 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -565,7 +565,7 @@ class Footprint:
 
         attrs = self.attr
 
-        if None in guess.values():
+        if any(v is None for v in guess.values()):  # Whatever the values compare to
             todok = []
             todokfast = []
             todokset = set()
@@ -639,7 +639,7 @@ class Footprint:
                 break
 
         for k in attrs.keys():
-            if guess[k] == 'None':
+            if isinstance(guess[k], str) and guess[k] == 'None':
                 guess[k] = None
                 logger.warning(' > Attr %s is a null string', k)
                 if k not in diags:
@@ -1107,7 +1107,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         fp = cls._footprint
         resolved, attr_input, u_attr_seen = fp.resolve(rd, fatal=False, report=thisreport,  # @UnusedVariable
                                                        resolvecache=resolvecache)
-        if resolved and None not in resolved.values():
+        if resolved and not any(v is None for v in resolved.values()):
             return (fp.checkonly(resolved, thisreport, resolvecache=resolvecache),
                     attr_input)
         else:
@@ -1122,7 +1122,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         """
         fp = self.footprint
         resolved, u_inputattr, u_attr_seen = fp.resolve(rd, fatal=False, report=None)  # @UnusedVariable
-        rc = resolved and None not in resolved.values()
+        rc = resolved and not any(v is None for v in resolved.values())
         if rc:
             for k in resolved.keys():
                 if k not in self._attributes or not util.samevalues(self._attributes[k], resolved[k]):
-- 
2.43.0


From 4aab3cfebc2b649564c9a6a91af8421489037bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 56/56] fix: a member or the result of a method may be the text
 __SKIP__

---
 src/footprints/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 6615db0..8b08067 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -410,9 +410,7 @@ class Footprint:
                         except Exception as trouble:
                             logger.critical(trouble)
                             if requeue:
-                                starter = '__SKIP__'
-                                changed = 0
-                                break
+                                return guessk, 0
                             else:
                                 raise
                     if starter is None:
@@ -420,7 +418,7 @@ class Footprint:
                         break
                 else:
                     starter = subattr
-        if guessk is not None and starter != '__SKIP__':
+        if guessk is not None:
             repl = myautofmt(starter)
             guessk = replattr.sub(lambda m: repl, guessk, count=1)
         return guessk, changed
-- 
2.43.0

