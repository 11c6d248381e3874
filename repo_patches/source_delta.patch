From 680df1a3cc3e13234c6587b351fc1b9f270f590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:20 +0000
Subject: [PATCH 01/53] fix: treat the bytes tags as reserved dictionary keys

A dictionary with the user key "py/b64" or "py/b85" was decoded as bytes.
Add both tags to RESERVED so that keys=True escapes them like other tags.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From 214e094cfa4742997fe3e0885905381ebaf0f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:26 +0000
Subject: [PATCH 02/53] fix: escape colliding string keys in the second phase

The unpickler restores every json:// key after the plain keys, but the
pickler numbered the values of escaped string keys in the first phase.
References in such a dictionary resolved to the wrong object.
---
 jsonpickle/pickler.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..c1beae9 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -820,26 +820,32 @@ class Pickler:
     def _flatten_non_string_key_value_pair(
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
-        """Flatten only non-string key/value pairs"""
-        if not util._is_picklable(k, v):
+        """Flatten key/value pairs whose key must be escaped"""
+        if isinstance(k, str):
+            # Escape data keys colliding with the json:// prefix or a reserved
+            # wire tag; _is_picklable drops RESERVED keys so it is not used here.
+            if not self._is_colliding_key(k):
+                return data
+        elif not util._is_picklable(k, v):
             return data
-        if self.keys and not isinstance(k, str):
+        if self.keys:
             k = self._escape_key(k)
             data[k] = self._flatten(v)
         return data
 
+    def _is_colliding_key(self, k: Any) -> bool:
+        """Does a string key collide with the json:// prefix or a reserved tag?"""
+        return isinstance(k, str) and (
+            k.startswith(tags.JSON_KEY) or k in tags.RESERVED
+        )
+
     def _flatten_string_key_value_pair(
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self.keys and self._is_colliding_key(k):
+            # These are escaped in the second phase, because that is when the
+            # unpickler restores them.
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From e12c3942138bf7af408487645db42ea8c263cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:54 +0000
Subject: [PATCH 03/53] fix: swap proxies stored under plain keys when
 keys=True

A dictionary decoded with keys=True kept the internal placeholder when a
plain string key held a reference to an object under construction.
---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..21cf7ab 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -918,7 +918,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From 3a153de1d18deb677f25a04f4a27aeb0860fd4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:59 +0000
Subject: [PATCH 04/53] fix: swap proxies held by dict subclasses with item
 assignment

A dict subclass holding a reference to an object under construction got a
new attribute for the real object, and the item kept the placeholder.
---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 21cf7ab..1dd1ccc 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -687,10 +687,10 @@ class Unpickler:
         restore_dict_items: bool = True,
     ) -> Any:
         restore_key = self._restore_key_fn()
-        method = _obj_setattr
         deferred = {}
 
         for k, v in util.items(obj):
+            method = _obj_setattr
             # ignore the reserved attribute
             if ignorereserved and k in tags.RESERVED:
                 continue
@@ -711,6 +711,7 @@ class Unpickler:
                         setattr(instance, k, value)
                     else:
                         instance[k] = value
+                        method = _obj_setvalue
                 except TypeError:
                     # Immutable object, must be constructed in one shot
                     if k != "__dict__":
-- 
2.43.0


From b13867343792da5f32131c5d551c32076de198bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:30 +0000
Subject: [PATCH 05/53] fix: let reduced objects be referenced by their own
 state and items

State and items of a reduced object were restored before the object was
created. A deque or OrderedDict containing itself, or a state tuple that
refers back to its owner, ended up holding the internal placeholder.
Create the object first, as pickle does.
---
 jsonpickle/unpickler.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 1dd1ccc..4c92f53 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -522,15 +522,15 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            reduce_val = list(obj[tags.REDUCE])
+            if len(reduce_val) < 6:
+                reduce_val.extend([None] * (6 - len(reduce_val)))
+            f, args = map(self._restore, reduce_val[:2])
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
-        if len(reduce_val) < 6:
-            reduce_val.extend([None] * (6 - len(reduce_val)))
-        f, args, state, listitems, dictitems, state_setter = reduce_val
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
@@ -551,6 +551,19 @@ class Unpickler:
                 # __init__ since the state dict will set all attributes immediately afterwards
                 stage1 = f.__new__(f, *args)
 
+        # The instance exists now, so anything that the remaining elements
+        # contain can refer to it directly.
+        proxy.reset(stage1)
+        self._swapref(proxy, stage1)
+        try:
+            state, listitems, dictitems, state_setter = map(
+                self._restore, reduce_val[2:]
+            )
+        except TypeError:
+            result = []
+            self._swapref(stage1, result)
+            return result
+
         if state and state_setter is None:
             try:
                 stage1.__setstate__(state)
@@ -591,8 +604,6 @@ class Unpickler:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
 
-        proxy.reset(stage1)
-        self._swapref(proxy, stage1)
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
-- 
2.43.0


From 8279dfdbb3479de7a56e375be2011890f262d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:36 +0000
Subject: [PATCH 06/53] fix: do not number objects that are flattened to plain
 values

File objects are flattened to None, and custom handlers may return a
plain value. The pickler assigned a reference number to these objects
while the unpickler does not, so later references resolved to the wrong
object.
---
 jsonpickle/pickler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c1beae9..1d9ca52 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -323,6 +323,11 @@ class Pickler:
             self._objs[objid] = new_id
         return is_new
 
+    def _discard_refs(self, count: int) -> None:
+        """Forget every reference except for the first `count` references."""
+        while len(self._objs) > count:
+            self._objs.popitem()
+
     def _mkref(self, obj: Any) -> bool:
         """
         Log a reference to an in-memory object, and return
@@ -789,10 +794,15 @@ class Pickler:
     def _ref_obj_instance(self, obj: Any) -> dict[str, Any] | list[Any] | None:
         """Reference an existing object or flatten if new"""
         if self.unpicklable:
+            count = len(self._objs)
             if self._mkref(obj):
                 # We've never seen this object so return its
                 # json representation.
-                return self._flatten_obj_instance(obj)
+                result = self._flatten_obj_instance(obj)
+                if not isinstance(result, (dict, list)):
+                    # A plain value cannot be the target of a reference.
+                    self._discard_refs(count)
+                return result
             # We've seen this object before so place an object
             # reference tag in the data. This avoids infinite recursion
             # when processing cyclical objects.
-- 
2.43.0


From 176e37bb200710b26643c1c11e7970dc983e244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 07/53] fix: keep reference numbers in step when fail_safe
 replaces an object

The failing object, and whatever had been flattened inside of it, kept
their reference numbers. References after the failure resolved to the
wrong object when decoding.
---
 jsonpickle/pickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1d9ca52..b7d54a3 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -423,6 +423,7 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        count = len(self._objs)
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -445,6 +446,9 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                # The output will not contain anything that has been numbered
+                # since the failing object was entered.
+                self._discard_refs(count)
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From 20aa9927d1cf080dc1ab529154b8d0104e823554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:47 +0000
Subject: [PATCH 08/53] fix: keep cached objects alive while flattening

The cache used for unpicklable=False and make_refs=False is keyed by
id(). Temporary bytes objects could be freed and their id reused, which
repeated the first value for all of them.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b7d54a3..c97639e 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -350,6 +350,8 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
+                # The cache is keyed by id(), so keep the object alive.
+                self._seen.append(obj)
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
         return result
 
-- 
2.43.0


From 6b6894fa10cb2dbaad409e23d64bb5a165f0796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:53 +0000
Subject: [PATCH 09/53] fix: do not modify the data that is being restored

Restoring a defaultdict removed its factory from the flattened data, so
restoring the same data again produced a different object.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 4c92f53..d4af2d9 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -832,6 +832,8 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        # This consumes the factory's entry, so leave the caller's data alone.
+        obj = obj.copy()
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From 28f18f4527bf71facbc131df146565bef8edd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:59 +0000
Subject: [PATCH 10/53] fix: keep the attributes of a dict subclass that equal
 its items

The attributes were dropped when they compared equal to the items.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c97639e..ee9d297 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -941,7 +941,12 @@ class Pickler:
             data[store_key] = value
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if (
+            hasattr(obj, "__dict__")
+            and self.unpicklable
+            and obj is not obj.__dict__
+            and (obj or obj.__dict__)
+        ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From 515a606a098038fbdb5dff940acc3084c2d63d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:05 +0000
Subject: [PATCH 11/53] fix: do not list a backend twice when it is loaded
 again

Removing a backend which had been loaded twice left a stale name behind,
and the following encode() and decode() calls failed with a KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From 6ba4f970693fdf7ac165423a8d016141205a7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:11 +0000
Subject: [PATCH 12/53] fix: break list and dict cycles when unpicklable=False

Cyclic objects become null, but cyclic lists and dictionaries recursed
until RecursionError was raised.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ee9d297..884d07d 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -958,6 +958,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and id(obj) in self._objs:
+                # A circular becomes None.
+                return None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From 875bffca13ace5186ba5c93e86b75cad35f82153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:18 +0000
Subject: [PATCH 13/53] fix: support regular expressions with bytes patterns

The bytes pattern was handed to the json backend, which either decoded
it into a string pattern or failed.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f7cad2c 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -241,12 +241,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From 20ca566a8fd39f28bcad7225b9472eb0bebe8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:41 +0000
Subject: [PATCH 14/53] fix: unregister the numpy.datetime64 handler

unregister_handlers() left the handler for numpy.datetime64 behind.
---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From b657962299ca05ec9e03e2a12381f1f60e838bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:08 +0000
Subject: [PATCH 15/53] fix: write the slots of objects that also have a
 __dict__

Slots inherited from a base class were lost when a subclass added a
__dict__. A slot named by several classes was flattened twice, and the
second time replaced its value with a reference to the first one.
---
 jsonpickle/pickler.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 884d07d..ed44992 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -570,6 +570,15 @@ class Pickler:
 
         return data
 
+    def _get_slots(self, obj: Any) -> list[str]:
+        """Return the names of the object's slots, each name once"""
+        slots = [
+            _wrap_string_slot(getattr(cls, "__slots__", ()))
+            for cls in obj.__class__.mro()
+        ]
+        names = dict.fromkeys(chain.from_iterable(slots))
+        return [name for name in names if name not in ("__dict__", "__weakref__")]
+
     def _flatten_newstyle_with_slots(
         self,
         obj: Any,
@@ -577,16 +586,13 @@ class Pickler:
         exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         """Return a json-friendly dict for new-style objects with __slots__."""
-        allslots = [
-            _wrap_string_slot(getattr(cls, "__slots__", ()))
-            for cls in obj.__class__.mro()
-        ]
+        allslots = self._get_slots(obj)
 
         # add properties to the attribute list
         if self.include_properties:
-            data = self._flatten_properties(obj, data, allslots)
+            data = self._flatten_properties(obj, data, [allslots])
 
-        if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
+        if not self._flatten_obj_attrs(obj, allslots, data, exclude):
             attrs = [
                 x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
             ]
@@ -765,7 +771,10 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            return self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            data = self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            # Base classes may store some of the attributes in slots
+            self._flatten_obj_attrs(obj, self._get_slots(obj), data, exclude)
+            return data
 
         if has_slots:
             return self._flatten_newstyle_with_slots(obj, data, exclude=exclude)
-- 
2.43.0


From a0d8ee3e7979fed3dc8ad9f2aba7abb5ce87f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:35 +0000
Subject: [PATCH 16/53] fix: do not write class attributes for objects with
 unset slots

When none of the slots were set, the class attributes were written in
their place, and decoding failed because they are read-only.
---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ed44992..f23ce4e 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -592,7 +592,7 @@ class Pickler:
         if self.include_properties:
             data = self._flatten_properties(obj, data, [allslots])
 
-        if not self._flatten_obj_attrs(obj, allslots, data, exclude):
+        if not self._flatten_obj_attrs(obj, allslots, data, exclude) and not allslots:
             attrs = [
                 x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
             ]
-- 
2.43.0


From 7737a77755daaaaa8d404d8f3251e3892105cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:43 +0000
Subject: [PATCH 17/53] fix: keep reference numbers in step for empty
 __getnewargs_ex__ kwargs

---
 jsonpickle/unpickler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index d4af2d9..86e51b1 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -837,14 +837,13 @@ class Unpickler:
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-            args, kwargs = obj[tags.NEWARGSEX]
+            # These are numbered by the pickler even when they are empty.
+            args, kwargs = map(self._restore, obj[tags.NEWARGSEX])
         else:
             args = getargs(obj, classes=self._classes)
             kwargs = {}
-        if args:
-            args = self._restore(args)
-        if kwargs:
-            kwargs = self._restore(kwargs)
+            if args:
+                args = self._restore(args)
 
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
-- 
2.43.0


From ab749e2edfa296d14356a05f7859a2bba2b69dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:49 +0000
Subject: [PATCH 18/53] fix: swap proxies held by list subclasses

---
 jsonpickle/unpickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 86e51b1..f6caa12 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -812,7 +812,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append(
+                            (instance, len(instance) - 1, value, _obj_setvalue)
+                        )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From f64c226b09d8ddc2734beebe65724a675ddbd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:54 +0000
Subject: [PATCH 19/53] fix: restore the attributes of tuple subclasses

---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f6caa12..4dcfe46 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -878,7 +878,8 @@ class Unpickler:
         self._swapref(proxy, instance)
 
         if isinstance(instance, tuple):
-            return instance
+            # The elements have been restored with the arguments of __new__().
+            return self._restore_from_dict(obj, instance)
 
         instance = self._restore_object_instance_variables(obj, instance)
 
-- 
2.43.0


From 1005847ce1912ccd48ec390b8e7ab968fd561b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:18 +0000
Subject: [PATCH 20/53] fix: do not return a proxy for an unknown reference at
 the root

---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 4dcfe46..3da51a0 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -404,6 +404,8 @@ class Unpickler:
         value = self._restore(obj)
         if reset:
             self._swap_proxies()
+            if isinstance(value, _Proxy):
+                value = value.get()
         return value
 
     def register_classes(self, classes: ClassesType) -> None:
-- 
2.43.0


From 0f0da67e56c9154fd23271b8259a1662d16685c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:17 +0000
Subject: [PATCH 21/53] fix: let references to an iterator decode to the
 iterator

---
 jsonpickle/unpickler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 3da51a0..3866953 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -499,10 +499,21 @@ class Unpickler:
         return parent
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
+        items = []
+        result = iter(items)
+        # References are to the iterator and not to the list behind it.
+        self._mkref(result)
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            for v in obj[tags.ITERATOR]:
+                value = self._restore(v)
+                items.append(value)
+                if isinstance(value, _Proxy):
+                    self._proxies.append(
+                        (items, len(items) - 1, value, _obj_setvalue)
+                    )
         except TypeError:
             return iter([])
+        return result
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
-- 
2.43.0


From 812c75c1ba7699bdae08a7728720234ed68ddf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:46 +0000
Subject: [PATCH 22/53] fix: keep the fold attribute of datetime and time
 objects

object.__reduce__() uses protocol 2 semantics, which leave out the fold
attribute that tells the two occurrences of a repeated hour apart.
---
 jsonpickle/handlers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index f7cad2c..0938cfc 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -215,7 +215,11 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        if getattr(obj, "fold", 0):
+            # Only protocol 4 and above include the fold attribute.
+            cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack]
+        else:
+            cls, args = obj.__reduce__()  # type: ignore[str-unpack]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From ca356169a9e52f867ad333af115ac38f13cd0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:16 +0000
Subject: [PATCH 23/53] fix: replace placeholders held by frozen dataclass
 instances

A frozen dataclass instance that refers to an object under construction
could not be decoded: the placeholder was replaced with setattr, which
raises FrozenInstanceError.
---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 3866953..63de1f3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -192,7 +192,10 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    try:
+        setattr(obj, attr, proxy.get())
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, proxy.get())
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
-- 
2.43.0


From c4104b699ae940ebec92dd5055726cb027273105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:00 +0000
Subject: [PATCH 24/53] fix: restore malformed bytearray entries as empty
 bytearrays

A payload that is not an encoded byte string raised a TypeError or KeyError,
unlike malformed bytes, tuples and sets, which decode to an empty value.
---
 jsonpickle/unpickler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 63de1f3..6ebcac9 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -445,10 +445,12 @@ class Unpickler:
 
     def _restore_bytearray(self, obj: dict[str, Any]) -> bytearray:
         payload = obj[tags.BYTEARRAY]
-        if tags.B85 in payload:
+        if has_tag(payload, tags.B85):
             data = self._restore_base85(payload)
-        else:
+        elif has_tag(payload, tags.B64):
             data = self._restore_base64(payload)
+        else:
+            data = b""
         return bytearray(data)
 
     def _refname(self) -> str:
-- 
2.43.0


From 7cefc1b701a5360de64aa5aaebe03c71bd8c2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:05 +0000
Subject: [PATCH 25/53] fix: do not take strings and objects apart as sequences

A string or an object in place of the list of a tuple, set, iterator or
reduction was read character by character or key by key.  These are
malformed like numbers are, and decode to the same empty value.  An
iterator that is malformed keeps its reference number.
---
 jsonpickle/unpickler.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6ebcac9..1ccbdca 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -245,6 +245,14 @@ def getargs(obj: dict[str, Any], classes: dict[str, type] | None = None) -> Any:
     return []
 
 
+def _getseq(obj: dict[str, Any], tag: str) -> list[Any]:
+    """Return the list stored for a tag, raise TypeError when it is malformed"""
+    seq = obj[tag]
+    if not isinstance(seq, (list, tuple, set)):
+        raise TypeError(f"{tag} must be a list")
+    return seq
+
+
 class _trivialclassic:
     """
     A trivial class that can be instantiated with no args
@@ -509,7 +517,7 @@ class Unpickler:
         # References are to the iterator and not to the list behind it.
         self._mkref(result)
         try:
-            for v in obj[tags.ITERATOR]:
+            for v in _getseq(obj, tags.ITERATOR):
                 value = self._restore(v)
                 items.append(value)
                 if isinstance(value, _Proxy):
@@ -517,7 +525,7 @@ class Unpickler:
                         (items, len(items) - 1, value, _obj_setvalue)
                     )
         except TypeError:
-            return iter([])
+            pass
         return result
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
@@ -540,7 +548,7 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(obj[tags.REDUCE])
+            reduce_val = list(_getseq(obj, tags.REDUCE))
             if len(reduce_val) < 6:
                 reduce_val.extend([None] * (6 - len(reduce_val)))
             f, args = map(self._restore, reduce_val[:2])
@@ -932,7 +940,7 @@ class Unpickler:
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
         try:
-            return {self._restore(v) for v in obj[tags.SET]}
+            return {self._restore(v) for v in _getseq(obj, tags.SET)}
         except TypeError:
             return set()
 
@@ -990,7 +998,7 @@ class Unpickler:
 
     def _restore_tuple(self, obj: dict[str, Any]) -> tuple[Any, ...]:
         try:
-            return tuple(self._restore(v) for v in obj[tags.TUPLE])
+            return tuple(self._restore(v) for v in _getseq(obj, tags.TUPLE))
         except TypeError:
             return ()
 
-- 
2.43.0


From c0d7c6095bcc00f9225331e30d8aef7647ad02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:09 +0000
Subject: [PATCH 26/53] fix: ignore references that are not reference numbers

Negative numbers and booleans were used as list indexes and gave an
unrelated object.  They resolve to None like other malformed references.
---
 jsonpickle/unpickler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 1ccbdca..6c43a84 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -633,13 +633,13 @@ class Unpickler:
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
+        idx = obj[tags.ID]
+        if type(idx) is not int or idx < 0:
+            return None
         try:
-            idx = obj[tags.ID]
             return self._objs[idx]
         except IndexError:
             return _IDProxy(self._objs, idx)
-        except TypeError:
-            return None
 
     def _restore_type(self, obj: dict[str, Any]) -> Any:
         typeref = util.loadclass(obj[tags.TYPE], classes=self._classes)
-- 
2.43.0


From d30a1d5e7466b4b77721f3d0a8855ea811e60585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:13 +0000
Subject: [PATCH 27/53] fix: do not leave placeholders for references to
 nothing in tuples, sets and keys

A reference to an object that does not exist decodes to None, but in
places that cannot be updated afterwards an internal placeholder was left.
---
 jsonpickle/unpickler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6c43a84..e73fc0b 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -190,6 +190,13 @@ class _IDProxy(_Proxy):
             return None
 
 
+def _resolved(value: Any) -> Any:
+    """Resolve a reference in a place that cannot be updated later on"""
+    if isinstance(value, _IDProxy):
+        return value.get()
+    return value
+
+
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
     try:
@@ -694,7 +701,7 @@ class Unpickler:
                 keys=True,
                 reset=False,
             )
-        return key
+        return _resolved(key)
 
     def _restore_key_fn(
         self, _passthrough: Callable[[Any], Any] = _passthrough
@@ -846,7 +853,7 @@ class Unpickler:
                         )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
-                    instance.add(self._restore(v))
+                    instance.add(_resolved(self._restore(v)))
 
         if has_tag(obj, tags.STATE):
             instance = self._restore_state(obj, instance)
@@ -940,7 +947,7 @@ class Unpickler:
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
         try:
-            return {self._restore(v) for v in _getseq(obj, tags.SET)}
+            return {_resolved(self._restore(v)) for v in _getseq(obj, tags.SET)}
         except TypeError:
             return set()
 
@@ -998,7 +1005,9 @@ class Unpickler:
 
     def _restore_tuple(self, obj: dict[str, Any]) -> tuple[Any, ...]:
         try:
-            return tuple(self._restore(v) for v in _getseq(obj, tags.TUPLE))
+            return tuple(
+                _resolved(self._restore(v)) for v in _getseq(obj, tags.TUPLE)
+            )
         except TypeError:
             return ()
 
-- 
2.43.0


From 6188cb47679dfa712b2438b6087b52367e2fb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:26 +0000
Subject: [PATCH 28/53] fix: keep private slots of classes whose name starts
 with an underscore

Name mangling strips the leading underscores of the class name, so the
slot was looked up under a name that does not exist and was left out.
---
 jsonpickle/pickler.py   |  2 +-
 jsonpickle/unpickler.py |  4 +++-
 jsonpickle/util.py      | 11 +++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index f23ce4e..a2e5526 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -529,7 +529,7 @@ class Pickler:
                 if not k.startswith("__"):
                     value = getattr(obj, k)
                 else:
-                    value = getattr(obj, f"_{obj.__class__.__name__}{k}")
+                    value = getattr(obj, util._mangled_name(obj.__class__, k))
                 flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e73fc0b..198c707 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -787,7 +787,9 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    setattr(
+                        instance, util._mangled_name(instance.__class__, k), value
+                    )
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..8ccfdac 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -538,6 +538,17 @@ def itemgetter(
     return str(getter(obj))
 
 
+def _mangled_name(cls: type, name: str) -> str:
+    """Return the name under which a private attribute of a class is stored
+
+    >>> class _Example: pass
+    >>> _mangled_name(_Example, '__attr')
+    '_Example__attr'
+
+    """
+    return f"_{cls.__name__.lstrip('_')}{name}"
+
+
 def items(
     obj: dict[Any, Any],
     exclude: Iterable[Any] = (),
-- 
2.43.0


From 620d2c24e44847ac8b58d54891fb35c0904a8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:32 +0000
Subject: [PATCH 29/53] fix: restore private slots of frozen dataclasses

Private names were assigned without the handling of frozen instances,
and a placeholder in a private slot was replaced under the wrong name.
---
 jsonpickle/unpickler.py | 51 +++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 198c707..47817da 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -763,33 +763,30 @@ class Unpickler:
                     self._namestack.pop()
                     continue
             else:
-                if not k.startswith("__"):
-                    try:
-                        setattr(instance, k, value)
-                    except KeyError:
-                        # certain numpy objects require us to prepend a _ to the var
-                        # this should go in the np handler but I think this could be
-                        # useful for other code
-                        setattr(instance, f"_{k}", value)
-                    except dataclasses.FrozenInstanceError:
-                        # issue #240
-                        # i think this is the only way to set frozen dataclass attrs
-                        object.__setattr__(instance, k, value)
-                    except AttributeError:
-                        # some objects raise this for read-only attributes (#422) (#478)
-                        if (
-                            hasattr(instance, "__slots__")
-                            and not len(instance.__slots__)
-                            # we have to handle this separately because of +483
-                            and issubclass(instance.__class__, (int, str))
-                            and self.handle_readonly
-                        ):
-                            continue
-                        raise
-                else:
-                    setattr(
-                        instance, util._mangled_name(instance.__class__, k), value
-                    )
+                if k.startswith("__"):
+                    k = util._mangled_name(instance.__class__, k)
+                try:
+                    setattr(instance, k, value)
+                except KeyError:
+                    # certain numpy objects require us to prepend a _ to the var
+                    # this should go in the np handler but I think this could be
+                    # useful for other code
+                    setattr(instance, f"_{k}", value)
+                except dataclasses.FrozenInstanceError:
+                    # issue #240
+                    # i think this is the only way to set frozen dataclass attrs
+                    object.__setattr__(instance, k, value)
+                except AttributeError:
+                    # some objects raise this for read-only attributes (#422) (#478)
+                    if (
+                        hasattr(instance, "__slots__")
+                        and not len(instance.__slots__)
+                        # we have to handle this separately because of +483
+                        and issubclass(instance.__class__, (int, str))
+                        and self.handle_readonly
+                    ):
+                        continue
+                    raise
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
-- 
2.43.0


From 687244edca0b4b706d3279a34eecd91378276a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:38 +0000
Subject: [PATCH 30/53] fix: write the private slots of base classes

They were looked up under the name mangled for the class of the object
instead of the class that defines them, and were left out.
---
 jsonpickle/pickler.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index a2e5526..bd1d046 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -11,7 +11,7 @@ import sys
 import types
 import warnings
 from collections.abc import Callable, Iterable, Sequence
-from itertools import chain, islice
+from itertools import islice
 from typing import Any
 
 from . import handlers, tags, util
@@ -572,12 +572,16 @@ class Pickler:
 
     def _get_slots(self, obj: Any) -> list[str]:
         """Return the names of the object's slots, each name once"""
-        slots = [
-            _wrap_string_slot(getattr(cls, "__slots__", ()))
-            for cls in obj.__class__.mro()
-        ]
-        names = dict.fromkeys(chain.from_iterable(slots))
-        return [name for name in names if name not in ("__dict__", "__weakref__")]
+        names: dict[str, None] = {}
+        for cls in obj.__class__.mro():
+            for name in _wrap_string_slot(cls.__dict__.get("__slots__", ())):
+                if name in ("__dict__", "__weakref__"):
+                    continue
+                if name.startswith("__") and cls is not obj.__class__:
+                    # Private to a base class, known only by its full name
+                    name = util._mangled_name(cls, name)
+                names[name] = None
+        return list(names)
 
     def _flatten_newstyle_with_slots(
         self,
-- 
2.43.0


From 6753d7fe1c6184df4c6b16ba6e5dee26233046a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:43 +0000
Subject: [PATCH 31/53] fix: do not write class attributes of objects with
 slots

Objects whose __slots__ are empty, or hidden by an attribute of a
subclass, had the constants and read-only properties of their class
written. These are not part of the object, and decoding failed because
they cannot be assigned.
---
 jsonpickle/pickler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index bd1d046..4e68c23 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -523,7 +523,7 @@ class Pickler:
         ok = False
         exclude = set(exclude)
         for k in attrs:
-            if k in exclude:
+            if k in exclude or self._is_class_attr(obj, k):
                 continue
             try:
                 if not k.startswith("__"):
@@ -537,6 +537,15 @@ class Pickler:
             ok = True
         return ok
 
+    def _is_class_attr(self, obj: Any, name: str) -> bool:
+        """Does the name stand for a constant or a read-only property of the class?"""
+        if name.startswith("__"):
+            return False
+        attr = inspect.getattr_static(obj.__class__, name, None)
+        if isinstance(attr, property):
+            return attr.fset is None
+        return not hasattr(attr, "__set__")
+
     def _flatten_properties(
         self,
         obj: Any,
-- 
2.43.0


From 4964dcbfe777859b991582978f4a9f2e969a031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:49 +0000
Subject: [PATCH 32/53] fix: restore plain values named default_factory

Items of dict subclasses, items of a defaultdict without a factory and
attributes of objects were taken for a factory, and were lost.
---
 jsonpickle/unpickler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 47817da..6e76e28 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -669,11 +669,10 @@ class Unpickler:
     def _loadfactory(self, obj: dict[str, Any]) -> Any | None:
         default_factory = None
         for key in (tags.DEFAULT_FACTORY, "default_factory"):
-            try:
+            # Factories are written as types, objects or references.
+            if isinstance(obj.get(key), dict):
                 default_factory = obj.pop(key)
                 break
-            except KeyError:
-                continue
         if default_factory is None:
             return None
         return self._restore(default_factory)
-- 
2.43.0


From cdf5a2fcb5604297d8126b873d038e9427ef8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:55 +0000
Subject: [PATCH 33/53] fix: restore zero-dimensional numpy arrays

Stored as text they came back with one dimension, or could not be
decoded at all when they hold a string, bytes, date or complex number.
---
 jsonpickle/ext/numpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3ed4f36..8958ac4 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -114,8 +114,11 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
         self.flatten_flags(obj, data)
-        data["values"] = self.context.flatten(obj.tolist(), reset=False)
-        if 0 in obj.shape:
+        # zero-dimensional arrays hold a bare value, which must not be
+        # taken for the text of a binary representation
+        values = obj.tolist() if obj.shape else [obj.tolist()]
+        data["values"] = self.context.flatten(values, reset=False)
+        if 0 in obj.shape or not obj.shape:
             # add shape information explicitly as it cannot be
             # inferred from an empty list
             data["shape"] = obj.shape
-- 
2.43.0


From 563f0d9e0468dcbcddd70ef9caac593ad5834904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:00 +0000
Subject: [PATCH 34/53] fix: keep the byte order of numpy arrays and their
 views

Arrays stored as text came back in native order, and views of an array
that is not in native order were restored with swapped bytes.
---
 jsonpickle/ext/numpy.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 8958ac4..f342543 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -117,6 +117,8 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         # zero-dimensional arrays hold a bare value, which must not be
         # taken for the text of a binary representation
         values = obj.tolist() if obj.shape else [obj.tolist()]
+        if get_byteorder(obj) not in ("|", native_byteorder):
+            data["byteorder"] = get_byteorder(obj)
         data["values"] = self.context.flatten(values, reset=False)
         if 0 in obj.shape or not obj.shape:
             # add shape information explicitly as it cannot be
@@ -126,9 +128,8 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
-        )
+        dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
+        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
         if shape is not None:
             arr = arr.reshape(shape)
@@ -341,10 +342,8 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
             self.flatten_flags(obj, data)
 
-            if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+            if get_byteorder(obj) not in ("|", native_byteorder):
+                data["byteorder"] = get_byteorder(obj)
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
-- 
2.43.0


From 037f169a69cf640f929be6690cef8fd424a428f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:06 +0000
Subject: [PATCH 35/53] fix: keep the byte order of the fields of structured
 numpy arrays

The text of the dtype said native order for all fields, so fields in
another order were restored with swapped bytes.
---
 jsonpickle/ext/numpy.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index f342543..33c09ae 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -43,6 +43,14 @@ class NumpyBaseHandler(BaseHandler):
                 dtype = dtype[len(prefix) : -1]
             data["dtype"] = dtype
 
+    def native_dtype(self, dtype: np.dtype[Any]) -> np.dtype[Any]:
+        """Return the dtype in native byte order
+
+        The fields of structured types have byte orders of their own,
+        which are part of the text of the dtype.
+        """
+        return dtype if dtype.names is not None else dtype.newbyteorder("N")
+
     def restore_dtype(self, data: dict[str, Any]) -> np.dtype[Any]:
         dtype = data["dtype"]
         if dtype.startswith(("{", "[")):
@@ -61,7 +69,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(self.native_dtype(obj.dtype), data)
         value = obj.tolist()
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
@@ -112,7 +120,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(self.native_dtype(obj.dtype), data)
         self.flatten_flags(obj, data)
         # zero-dimensional arrays hold a bare value, which must not be
         # taken for the text of a binary representation
@@ -206,7 +214,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(self.native_dtype(obj.dtype), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -339,7 +347,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(self.native_dtype(obj.dtype), data)
             self.flatten_flags(obj, data)
 
             if get_byteorder(obj) not in ("|", native_byteorder):
@@ -381,7 +389,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(self.native_dtype(obj.dtype), data)
                 self.flatten_flags(obj, data)
 
                 if get_byteorder(obj) != "|":
-- 
2.43.0


From 4ebf8f50b9744748c3b5e0679e172814a4af73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:11 +0000
Subject: [PATCH 36/53] fix: restore views of numpy arrays in Fortran order

The base array was restored in C order, so the offset and strides of a
view selected other elements of it.
---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 33c09ae..a3cdb59 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -252,7 +252,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy(order="A")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From 99c2cc9bc7f8ef8f15f4f9ed67f73c6b21e9bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:16 +0000
Subject: [PATCH 37/53] fix: restore views of numpy arrays of dates and times

Their type cannot be exported as a buffer, so decoding failed. Share
the bytes of the base array instead.
---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index a3cdb59..1e54e06 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -435,7 +435,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                if base.flags.forc and not base.dtype.hasobject:
+                    # not all dtypes can be exported as a buffer
+                    buffer = base.ravel(order="A").view(np.uint8).data
+                else:
+                    buffer = base.data
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From 2c30fceb25e12450b420862abd7a8b70930c013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:21 +0000
Subject: [PATCH 38/53] fix: restore fields of structured numpy arrays that
 hold arrays

Such a field is a view of the array being written, so its text referred
to an array that does not exist yet when it is restored.
---
 jsonpickle/ext/numpy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 1e54e06..af3624a 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,15 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def _plain(value: Any) -> Any:
+    """Return the result of tolist() without the arrays found in structured values"""
+    if isinstance(value, np.ndarray):
+        return _plain(value.tolist())
+    if type(value) in (list, tuple):
+        return type(value)(_plain(v) for v in value)
+    return value
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -124,7 +133,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         self.flatten_flags(obj, data)
         # zero-dimensional arrays hold a bare value, which must not be
         # taken for the text of a binary representation
-        values = obj.tolist() if obj.shape else [obj.tolist()]
+        values = _plain(obj.tolist() if obj.shape else [obj.tolist()])
         if get_byteorder(obj) not in ("|", native_byteorder):
             data["byteorder"] = get_byteorder(obj)
         data["values"] = self.context.flatten(values, reset=False)
-- 
2.43.0


From e70b84bea9ecf0e0f1e3766929df31c44f64b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:22 +0000
Subject: [PATCH 39/53] fix: restore names of pandas indexes that are not
 tuples

A text became a tuple of its letters, and numbers could not be decoded
at all.
---
 jsonpickle/ext/pandas.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..7aba275 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -148,6 +148,13 @@ def make_read_csv_params(
     )
 
 
+def _restore_name(name: Any) -> Any:
+    """Names are hashable, so a list is a tuple that was stored as JSON"""
+    if isinstance(name, list):
+        return tuple(_restore_name(n) for n in name)
+    return name
+
+
 class PandasDfHandler(BaseHandler):
     pp: PandasProcessor = PandasProcessor()
 
@@ -377,7 +384,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": _restore_name(v)  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 2b15bb47011a76c3f47305b0a0bb0b5e1149f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:31 +0000
Subject: [PATCH 40/53] fix: restore tuples as names of pandas objects

They are lists in the document, and lists cannot be names.
---
 jsonpickle/ext/pandas.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 7aba275..8d63a25 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -261,12 +261,13 @@ class PandasDfHandler(BaseHandler):
             return self.restore_v3_3(obj)
         type_codes = rle_decode(rle_types)
 
+        index_names = _restore_name(meta.get("index_names"))
+        column_names = _restore_name(meta.get("column_names"))
+
         # handle multicolumns
         columns_decoded = decode(meta["columns"], keys=True)
         if meta.get("is_multicolumns", False):
-            columns = pd.MultiIndex.from_tuples(
-                columns_decoded, names=meta.get("column_names")
-            )
+            columns = pd.MultiIndex.from_tuples(columns_decoded, names=column_names)
         else:
             columns = columns_decoded
 
@@ -306,20 +307,17 @@ class PandasDfHandler(BaseHandler):
         # decode and set the index
         index_values = decode(meta["index"], keys=True)
         if meta.get("is_multiindex", False):
-            index = pd.MultiIndex.from_tuples(
-                index_values, names=meta.get("index_names")
-            )
+            index = pd.MultiIndex.from_tuples(index_values, names=index_names)
         else:
-            index = pd.Index(index_values, name=meta.get("index_names"))
+            index = pd.Index(index_values, name=index_names)
         df.index = index
 
         # restore column names for easy readability
         if "column_names" in meta:
             if meta.get("is_multicolumns", False):
-                names: Any = meta.get("column_names")
-                df.columns.names = names
+                df.columns.names = column_names
             else:
-                df.columns.name = meta.get("column_names")
+                df.columns.name = column_names
 
         return df
 
@@ -360,7 +358,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
         """Restore the flattened data"""
-        name = data["name"]
+        name = _restore_name(data["name"])
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
         return pd.Series(values, index=index, name=name)
-- 
2.43.0


From b51d189608faa3f1b92be0424624a34660c5ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:38 +0000
Subject: [PATCH 41/53] fix: keep column types of data frames that have no
 short code

Columns of nullable numbers, of times with a time zone and of periods
were restored as columns of objects.
---
 jsonpickle/ext/pandas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 8d63a25..51953eb 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -203,6 +203,10 @@ class PandasDfHandler(BaseHandler):
                     # treat it as regular object dtype
                     data_columns[col] = col_data.tolist()
                     type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+            elif dtype_name not in TYPE_MAP:
+                # types with parameters have no code
+                data_columns[col] = col_data.tolist()
+                type_codes.append(dtype_name)
             else:
                 # for other dtypes, store their values directly
                 data_columns[col] = col_data.tolist()
@@ -283,7 +287,7 @@ class PandasDfHandler(BaseHandler):
             else:
                 df_data[col] = col_data
                 # used later to get correct dtypes
-                dtype_str = REVERSE_TYPE_MAP.get(type_code, "object")
+                dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
 
         # turn dict into df
-- 
2.43.0


From 735fd34651bf878b6a9c47db702c979b0d9e695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:46 +0000
Subject: [PATCH 42/53] fix: keep the time zone of pandas series

Series of times with a time zone were restored as times without one.
---
 jsonpickle/ext/pandas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 51953eb..d3f3280 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -357,7 +357,9 @@ class PandasSeriesHandler(BaseHandler):
         data["name"] = obj.name
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
-        data["values"] = self.context.flatten(obj.values, reset=False)
+        # The values of times with a time zone do not hold the time zone.
+        values = obj.array if isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.values
+        data["values"] = self.context.flatten(values, reset=False)
         return data
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
-- 
2.43.0


From 44166e283c87f6247473472922135d773a69712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:54 +0000
Subject: [PATCH 43/53] fix: keep the types of row and column labels of data
 frames

Labels of narrow or nullable types, and the labels of empty data
frames, were restored with another type.
---
 jsonpickle/ext/pandas.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index d3f3280..696cdbf 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -221,7 +221,9 @@ class PandasDfHandler(BaseHandler):
             "dtypes_rle": rle_types,
             "index": index_encoded,
             "index_names": index_names,
+            "index_dtype": None if is_multiindex else str(obj.index.dtype),
             "columns": encode(columns, keys=True),
+            "columns_dtype": None if is_multicolumns else str(obj.columns.dtype),
             "column_names": column_names,
             "is_multiindex": is_multiindex,
             "is_multicolumns": is_multicolumns,
@@ -273,12 +275,12 @@ class PandasDfHandler(BaseHandler):
         if meta.get("is_multicolumns", False):
             columns = pd.MultiIndex.from_tuples(columns_decoded, names=column_names)
         else:
-            columns = columns_decoded
+            columns = pd.Index(columns_decoded, dtype=meta.get("columns_dtype"))
 
         # progressively reconstruct dataframe as a dict
         df_data = {}
         dtypes = {}
-        for col, type_code in zip(columns, type_codes):
+        for col, type_code in zip(columns_decoded, type_codes):
             col_data = data_columns[col]
             if type_code == "py/jp":
                 # deserialize each item in the column
@@ -313,7 +315,9 @@ class PandasDfHandler(BaseHandler):
         if meta.get("is_multiindex", False):
             index = pd.MultiIndex.from_tuples(index_values, names=index_names)
         else:
-            index = pd.Index(index_values, name=index_names)
+            index = pd.Index(
+                index_values, dtype=meta.get("index_dtype"), name=index_names
+            )
         df.index = index
 
         # restore column names for easy readability
-- 
2.43.0


From 03615e3458e454dec4b1530ad20b47bb7d10d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:41 +0000
Subject: [PATCH 44/53] fix: keep the items of object columns of data frames

A type was guessed from the items first, which turned integers next to
missing values into floats, None into NaN and datetime objects into
timestamps.
---
 jsonpickle/ext/pandas.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 696cdbf..fb03526 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -285,12 +285,15 @@ class PandasDfHandler(BaseHandler):
             if type_code == "py/jp":
                 # deserialize each item in the column
                 col_values = [decode(item) for item in col_data]
-                df_data[col] = col_values
+                df_data[col] = pd.Series(col_values, dtype=object)
             else:
-                df_data[col] = col_data
                 # used later to get correct dtypes
                 dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
+                if dtype_str == "object" or type_code not in REVERSE_TYPE_MAP:
+                    # do not let pandas guess a type, this would convert the items
+                    col_data = pd.Series(col_data, dtype=object)
+                df_data[col] = col_data
 
         # turn dict into df
         df = pd.DataFrame(df_data)
-- 
2.43.0


From fb0779e638dc1f8ad85d16d6331de86319c7f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:47 +0000
Subject: [PATCH 45/53] fix: keep the type of pandas series of objects

Series of objects that are all texts were restored as series of the
str type, with NaN for None.
---
 jsonpickle/ext/pandas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index fb03526..a1bb665 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -366,6 +366,7 @@ class PandasSeriesHandler(BaseHandler):
         data["index"] = self.context.flatten(obj.index, reset=False)
         # The values of times with a time zone do not hold the time zone.
         values = obj.array if isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.values
+        data["dtype"] = str(obj.dtype)
         data["values"] = self.context.flatten(values, reset=False)
         return data
 
@@ -374,7 +375,9 @@ class PandasSeriesHandler(BaseHandler):
         name = _restore_name(data["name"])
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
-        return pd.Series(values, index=index, name=name)
+        # do not let pandas guess a type for objects
+        dtype = object if data.get("dtype") == "object" else None
+        return pd.Series(values, index=index, dtype=dtype, name=name)
 
 
 class PandasIndexHandler(BaseHandler):
-- 
2.43.0


From 48e1b933d1043cd5861f98e44eb95bbeccd375b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:36 +0000
Subject: [PATCH 46/53] fix: keep the types of pandas series of periods and
 intervals

Their values are plain objects, from which the type cannot be told
when all of them are missing.
---
 jsonpickle/ext/pandas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index a1bb665..8985bb0 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -364,8 +364,9 @@ class PandasSeriesHandler(BaseHandler):
         data["name"] = obj.name
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
-        # The values of times with a time zone do not hold the time zone.
-        values = obj.array if isinstance(obj.dtype, pd.DatetimeTZDtype) else obj.values
+        # The values of times with a time zone do not hold the time zone,
+        # and those of periods and intervals are plain objects.
+        values = obj.array if obj.values.dtype != obj.dtype else obj.values
         data["dtype"] = str(obj.dtype)
         data["values"] = self.context.flatten(values, reset=False)
         return data
-- 
2.43.0


From 5a05245df8effe79ff6f9d1a0135cd6bb588e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:42 +0000
Subject: [PATCH 47/53] fix: keep the types of columns without values in data
 frames

Columns of time differences or intervals that are all missing were
restored with another type.
---
 jsonpickle/ext/pandas.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 8985bb0..686cd3b 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -189,6 +189,9 @@ class PandasDfHandler(BaseHandler):
         for col in obj.columns:
             col_data = obj[col]
             dtype_name = col_data.dtype.name
+            if isinstance(col_data.dtype, pd.IntervalDtype):
+                # the name does not tell the type and the closed side
+                dtype_name = str(col_data.dtype)
 
             if dtype_name == "object":
                 # check if items are complex types
@@ -290,7 +293,11 @@ class PandasDfHandler(BaseHandler):
                 # used later to get correct dtypes
                 dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
-                if dtype_str == "object" or type_code not in REVERSE_TYPE_MAP:
+                if (
+                    dtype_str == "object"
+                    or type_code not in REVERSE_TYPE_MAP
+                    or all(pd.isna(item) for item in col_data)
+                ):
                     # do not let pandas guess a type, this would convert the items
                     col_data = pd.Series(col_data, dtype=object)
                 df_data[col] = col_data
-- 
2.43.0


From 5e17972ad560158df423d8c0dcab9e9c4a243603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:47 +0000
Subject: [PATCH 48/53] fix: write large numpy arrays of any objects

Arrays of objects above the size threshold were dumped without
flattening, which failed for objects that JSON does not know, and
turned tuples into lists.
---
 jsonpickle/ext/numpy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index af3624a..c5d6d5e 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -12,7 +12,7 @@ import numpy as np
 import numpy.typing as npt
 
 from ..handlers import BaseHandler, register, unregister
-from ..util import b64decode, b64encode, importable_name, loadclass
+from ..util import _is_primitive, b64decode, b64encode, importable_name, loadclass
 
 __all__ = ["register_handlers", "unregister_handlers"]
 
@@ -192,7 +192,11 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-        if self.size_threshold is None or self.size_threshold >= obj.size:
+        if (
+            self.size_threshold is None
+            or self.size_threshold >= obj.size
+            or (obj.dtype == object and not all(map(_is_primitive, obj.flat)))
+        ):
             # encode as text
             data = super().flatten(obj, data)
         else:
-- 
2.43.0


From 01a424e59e7521c975314d0b4055c51ed83553bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:43 +0000
Subject: [PATCH 49/53] fix: keep arrays held by numpy arrays of objects

Only the fields of structured values are views of the array itself.
---
 jsonpickle/ext/numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index c5d6d5e..6cb190d 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -133,7 +133,9 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         self.flatten_flags(obj, data)
         # zero-dimensional arrays hold a bare value, which must not be
         # taken for the text of a binary representation
-        values = _plain(obj.tolist() if obj.shape else [obj.tolist()])
+        values = obj.tolist() if obj.shape else [obj.tolist()]
+        if obj.dtype.names:
+            values = _plain(values)
         if get_byteorder(obj) not in ("|", native_byteorder):
             data["byteorder"] = get_byteorder(obj)
         data["values"] = self.context.flatten(values, reset=False)
-- 
2.43.0


From ee5bba8c228317bb91efce5d242ec59912971d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:49 +0000
Subject: [PATCH 50/53] fix: restore numpy arrays of objects that are sequences

Sequences of equal length were taken for further axes of the array.
---
 jsonpickle/ext/numpy.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 6cb190d..4e0beba 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -139,19 +139,28 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         if get_byteorder(obj) not in ("|", native_byteorder):
             data["byteorder"] = get_byteorder(obj)
         data["values"] = self.context.flatten(values, reset=False)
-        if 0 in obj.shape or not obj.shape:
+        if 0 in obj.shape or not obj.shape or obj.dtype == object:
             # add shape information explicitly as it cannot be
-            # inferred from an empty list
+            # inferred from an empty list or from a list of sequences
             data["shape"] = obj.shape
         return data
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
         dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
-        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
-        if shape is not None:
-            arr = arr.reshape(shape)
+        if shape and dtype == object:
+            # the items may be sequences, do not take them for further axes
+            arr = np.empty(shape, dtype=dtype, order=data.get("order", "C"))
+            for index in np.ndindex(*shape):
+                item = values
+                for i in index:
+                    item = item[i]
+                arr[index] = item
+        else:
+            arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
+            if shape is not None:
+                arr = arr.reshape(shape)
 
         self.restore_flags(data, arr)
         return arr
-- 
2.43.0


From edcf2c6881f43c10a25f45ff99ac81f8dc72ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:20 +0000
Subject: [PATCH 51/53] fix: respect _jsonpickle_exclude in subclasses of list,
 set and tuple

---
 jsonpickle/pickler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4e68c23..296856c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -770,7 +770,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -780,7 +780,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -1014,11 +1014,14 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self,
+        obj: Iterable[Any],
+        data: dict[str, Any],
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From ae085dbf96ba845a929126d3dab3f801c01d3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:36 +0000
Subject: [PATCH 52/53] fix: write the slots of list and set subclasses

---
 jsonpickle/pickler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 296856c..bff7380 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1022,6 +1022,7 @@ class Pickler:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
             self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+        self._flatten_obj_attrs(obj, self._get_slots(obj), data, exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 0ac5312f1b52a9a2b373cb397dd8cf53e61de300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:17 +0000
Subject: [PATCH 53/53] fix: restore reduced objects whose state has attributes
 and slots

The state of an object with both is a pair.  Assigning the pair to
__dict__ raises TypeError, so the pair was never taken apart.
---
 jsonpickle/unpickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6e76e28..48551dc 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -609,7 +609,7 @@ class Unpickler:
                     for k, v in stage1.__dict__.items():
                         state.setdefault(k, v)
                     stage1.__dict__ = state
-                except AttributeError:
+                except (AttributeError, TypeError):
                     # next prescribed default
                     try:
                         for k, v in state.items():
-- 
2.43.0

