From fc55bc664e3c0dab9d412e7e3a4cd7dcc7488e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 01/41] fix: Nodespaces accepts non-string child keys on write
 and delete

Nodespaces.__getitem__ passes non-string keys on to the children, but
__setitem__ and __delitem__ raised AttributeError for them.
---
 src/node/behaviors/nodespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/nodespace.py b/src/node/behaviors/nodespace.py
index 9169929..2a4144a 100644
--- a/src/node/behaviors/nodespace.py
+++ b/src/node/behaviors/nodespace.py
@@ -41,7 +41,9 @@ class Nodespaces(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             val.__name__ = key
@@ -54,7 +56,9 @@ class Nodespaces(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             del self.nodespaces[key]
-- 
2.43.0


From 7318d9603eea4ef4f4999e62512f748f2fab51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 02/41] fix: GetattrChildren raises AttributeError for missing
 names

A KeyError escaping from __getattr__ breaks hasattr, getattr defaults, interface
lookup and copying of such nodes.
---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..b323145 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -134,7 +134,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From e185656feb7a353d5a223e577de5b6b820820434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 03/41] fix: Cache evicts entries cached by inner behaviors
 during a write

Behaviors below Cache may read the key while it is set or deleted, which put
the replaced or deleted value back into the cache.
---
 src/node/behaviors/cache.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..ac502fb 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -24,6 +24,13 @@ def _keys(obj):
     return obj.keys() if IS_PY2 else list(obj.keys())
 
 
+def _evict(cache, key):
+    try:
+        del cache[key]
+    except KeyError:
+        pass
+
+
 @implementer(IInvalidate)
 class Invalidate(Behavior):
     """Plumbing behavior for invalidation.
@@ -105,7 +112,11 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key, value)
+        try:
+            _next(self, key, value)
+        finally:
+            # behaviors below may have read, thus cached, the old value
+            _evict(self.cache, key)
 
     @plumb
     def __delitem__(_next, self, key):
@@ -113,7 +124,11 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key)
+        try:
+            _next(self, key)
+        finally:
+            # behaviors below may have read, thus cached, the deleted value
+            _evict(self.cache, key)
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From 3f9e507e0542faedd9ad2ecd456672cf66f5402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 04/41] fix: Reference keeps the uuid index exact and refuses
 every uuid collision

The index kept nodes which were overwritten, descendants of an inserted subtree
kept their former index, removed subtrees shared the index with their former tree
(and could not be inserted again), and colliding uuids were only detected for
nodes having children. A failing insertion left the child in the index.
---
 src/node/behaviors/reference.py | 70 +++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..efa90ab 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from node.interfaces import INode
 from node.interfaces import IReference
+from node.interfaces import IStorage
 from plumber import Behavior
 from plumber import default
 from plumber import override
@@ -38,34 +39,71 @@ class Reference(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
-                    raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
-            self._index.update(val._index)
-            val._index = self._index
-        _next(self, key, val)
+        if not INode.providedBy(val):
+            replaced = self._stored_child(key)
+            _next(self, key, val)
+            self._unindex(replaced)
+            return
+        index = val._index
+        replaced = self._stored_child(key)
+        if index is self._index:
+            # a contained node may only be set again where it is
+            if replaced is not val:
+                raise ValueError('Node with uuid already exists')
+            _next(self, key, val)
+            return
+        for iuuid in index:
+            if iuuid in self._index:
+                raise ValueError('Node with uuid already exists')
+        self._index.update(index)
+        for node in index.values():
+            node._index = self._index
+        try:
+            _next(self, key, val)
+        except Exception:
+            for iuuid, node in index.items():
+                del self._index[iuuid]
+                node._index = index
+            raise
+        if replaced is not val:
+            self._unindex(replaced)
 
     @plumb
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
-        if hasattr(todel, '_to_delete'):
-            for iuuid in todel._to_delete():
-                del self._index[iuuid]
         _next(self, key)
+        self._unindex(todel)
 
     @plumb
     def detach(_next, self, key):
         node = _next(self, key)
-        node._index = {int(node.uuid): node}
-        node._index_nodes()
+        if hasattr(node, '_index_nodes'):
+            node._index = {int(node.uuid): node}
+            node._index_nodes()
         return node
 
+    @default
+    def _stored_child(self, key):
+        """Child stored at key without triggering child creation or lookups.
+        """
+        if not IStorage.providedBy(self):
+            return None
+        try:
+            return self.storage[key]
+        except KeyError:
+            return None
+
+    @default
+    def _unindex(self, child):
+        """Remove subtree of removed child from index and give it its own.
+        """
+        if hasattr(child, '_to_delete'):
+            for iuuid in child._to_delete():
+                self._index.pop(iuuid, None)
+            child._index = {int(child.uuid): child}
+            child._index_nodes()
+
     @property
     def uuid(self):
         return self._uuid
-- 
2.43.0


From 06fb9396c8c316c7bed2e776d2cec2bdb4b952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 05/41] fix: Order insertions never corrupt the child order or
 leave refused nodes

Inserting a node whose name was already taken corrupted the linked list of the
odict storage, a node refused by other behaviors stayed in the storage, and
insertfirst/insertlast on an empty node skipped validation.
---
 src/node/behaviors/order.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..29dcd03 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -16,6 +16,7 @@ class Order(Behavior):
     def insertfirst(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[0]]
@@ -25,6 +26,7 @@ class Order(Behavior):
     def insertlast(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[-1]]
@@ -37,7 +39,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -46,7 +48,18 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
+
+    @override
+    def _setinserted(self, newnode):
+        name = newnode.name
+        try:
+            self[name] = newnode
+        except Exception:
+            # insertion refused, remove from position reserved on storage
+            if name in self.storage:
+                del self.storage[name]
+            raise
 
     @override
     def _validateinsertion(self, node):
@@ -57,3 +70,5 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        if node.name in self.storage:
+            raise KeyError('Node with name of given node already contained.')
-- 
2.43.0


From 8f88a200b2e296ede9f6dae78086575cdf95295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 06/41] fix: TreeLock creates exactly one lock per tree

Two threads locking a tree for the first time could each create and use a lock
of their own.
---
 src/node/locking.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..08d25ff 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,14 +1,22 @@
 # -*- coding: utf-8 -*-
+from threading import Lock
 from threading import RLock
 
 
+# guards creation of the lock of a tree
+_creation_lock = Lock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
         self.lock = getattr(root, '_treelock', None)
         if self.lock is None:
-            self.lock = root._treelock = RLock()
+            with _creation_lock:
+                self.lock = getattr(root, '_treelock', None)
+                if self.lock is None:
+                    self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From afed4786ef4cf0200c5cb21dc1745bec4313774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 07/41] fix: event dispatching, suppression and fallback work
 in every thread

The thread local state was initialized in the importing thread only, all other
threads failed with AttributeError.
---
 src/node/behaviors/events.py   | 20 +++++++++++++++-----
 src/node/behaviors/fallback.py |  7 +++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..b89cc66 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppress_data(threading.local):
+    suppress = 0
+
+    def __init__(self):
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +68,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppress_data()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +93,13 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _attribute_subscribers_data(threading.local):
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..a643ec2 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,12 @@ import threading
 _marker = dict()
 
 
+class _processing_data(threading.local):
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing_data()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 2f7f8fb3d00b6d55eabbf6d6fa846f731fdfd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 08/41] fix: SuffixAliaser without suffix returns the key when
 unaliasing

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From ba0dde76d13c0ca4c8e70522fd9ff64c6d2dd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 09/41] fix: Alias honours an empty whitelisting aliaser

An empty DictAliaser is falsy and was taken for no aliaser at all.
---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From 3a5d90bfb6565c553512528997a451471f3647e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 10/41] fix: failing detach does not silence later lifecycle
 events

---
 src/node/behaviors/lifecycle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..ca4d8ff 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -50,9 +50,12 @@ class Lifecycle(Behavior):
 
     @plumb
     def detach(_next, self, key):
+        suppress = self._notify_suppress
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = suppress
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From 4f1898bc346185383275ed0bc9ab03df140710e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 11/41] fix: suppress_events takes effect on entering, not on
 creation

Creating it without entering suppressed the events from then on, and entering an
instance twice failed with ValueError.
---
 src/node/behaviors/events.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index b89cc66..adc8a90 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -74,12 +74,12 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
-        self.events = events
+        self.events = list(events)
 
     def __enter__(self):
         self.data.suppress += 1
+        for event in self.events:
+            self.data.events.append(event)
         return self.data.suppress
 
     def __exit__(self, type_, value, traceback):
-- 
2.43.0


From 9b91b3ab9b4ec4f4d21c79e5dc5fb96bf7e2bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 12/41] fix: subscribers changing bindings while notified do
 not affect the dispatch

A subscriber unbinding itself made dispatch skip the next subscriber.
---
 src/node/behaviors/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index adc8a90..ea06c91 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -312,7 +312,7 @@ class Events(Behavior):
                 return
             if event in suppress_events.data.events:
                 return
-        for subscriber in attribute_subscribers:
+        for subscriber in list(attribute_subscribers):
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From f932f7687e209c948f6884f3dfce55f94b26777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 13/41] fix: events declared by a subclass do not leak to its
 base classes

---
 src/node/behaviors/events.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index ea06c91..a8971ac 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,9 +24,12 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
-    events = cls.__events__
+    # never extend the list of a base class
+    events = cls.__events__ = list(dct.get('__events__', ()))
+    for base in cls.__mro__[1:]:
+        for event in base.__dict__.get('__events__', ()):
+            if event not in events:
+                events.append(event)
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
             if attr not in events:
-- 
2.43.0


From 1fa7f450cd18f205a8a186dc6ae177463f7c31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 14/41] fix: deleting an event attribute notifies decorated
 subscribers

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index a8971ac..28b72c4 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -203,7 +203,8 @@ class EventAttribute(object):
         """Delete attribute value.
         """
         del getattr(obj, self.storage)[self.name]
-        obj.dispatch(self.name, UNSET)
+        with _subscribers(self.subscribers):
+            obj.dispatch(self.name, UNSET)
 
     def subscriber(self, func):
         """Event attribute subscriber decorator.
-- 
2.43.0


From ef8615a57102fd8df1a7d2f8dcaeeef7522703e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 15/41] fix: Adopt reverts adoption whatever exception refused
 the child

---
 src/node/behaviors/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index b323145..1a3a0db 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except Exception:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From a23d353a9c1bfd727e7c5537944b3fe9c92e5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 16/41] fix: UnicodeAware decodes byte keys and values on
 python 3

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 1a3a0db..58fc06e 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -159,21 +159,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0


From f1b9cad60bcc4747ed2b396046f0aa4aa1d7ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 17/41] fix: shallow copies do not share storage and cache with
 the original

---
 src/node/behaviors/mapping.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/mapping.py b/src/node/behaviors/mapping.py
index ecfebde..897d6af 100644
--- a/src/node/behaviors/mapping.py
+++ b/src/node/behaviors/mapping.py
@@ -150,7 +150,12 @@ class ClonableMapping(Behavior):
 
     @default
     def copy(self):
-        return copy.copy(self)
+        copied = copy.copy(self)
+        # containers created by storage and cache must not be shared
+        for name in ('_storage', '_cache'):
+            if name in copied.__dict__:
+                setattr(copied, name, copy.copy(copied.__dict__[name]))
+        return copied
 
     @default
     def deepcopy(self):
-- 
2.43.0


From adbc3940b90b84dd99e8e632cb25feb49d558961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 18/41] fix: NodeDecoder decodes the values of plain
 dictionaries

UUIDs, UNSET, classes and nodes nested in dictionaries were serialized but not
deserialized.
---
 src/node/serializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..4817beb 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -193,8 +193,10 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode data from dict
+        return dict(
+            (key, self.decode(val, parent=parent)) for key, val in data.items()
+        )
 
 
 ###############################################################################
-- 
2.43.0


From 462499bf236ed9f3b91d8af832bb749cf920c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 19/41] fix: NodeDecoder imports modules needed to resolve a
 dotted name

---
 src/node/serializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 4817beb..a85ea31 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -145,9 +145,16 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        path = components[0]
+        ob = __import__(path)
         for comp in components[1:]:
-            ob = getattr(ob, comp)
+            path = '.'.join([path, comp])
+            try:
+                ob = getattr(ob, comp)
+            except AttributeError:
+                # possibly a module which is not imported yet
+                __import__(path)
+                ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From 8e28eb2c6ad4f987cdbd5124d982484c7500a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 20/41] fix: Fallback continues rootwards if a fallback child
 is missing

---
 src/node/behaviors/fallback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index a643ec2..675bffe 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -34,7 +34,10 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 650467a94103ef3dc3c63b5ba22eaed108e1150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 21/41] fix: UUIDAware.deepcopy works for nodes holding plain
 values

---
 src/node/behaviors/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 58fc06e..f3f808d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -210,4 +210,5 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From 1e13f76c229dc224b6d13ca124abd59c366cb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 22/41] fix: UNSET keeps its identity when copied or pickled

---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..d52305b 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # copying and unpickling yields the one and only UNSET
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From 03b289833d7fd22063bef50a71dfc383682a7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 23/41] fix: trees which have been locked can be deep copied
 and pickled

The lock stored on the root raised TypeError on copying.
---
 src/node/locking.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index 08d25ff..77c246c 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,6 +1,15 @@
 # -*- coding: utf-8 -*-
 from threading import Lock
-from threading import RLock
+import threading
+
+
+class RLock(type(threading.RLock())):
+    """Reentrant lock which does not hinder copying or pickling the locked tree.
+    A copied tree gets a lock of its own.
+    """
+
+    def __reduce__(self):
+        return (RLock, ())
 
 
 # guards creation of the lock of a tree
-- 
2.43.0


From d5fb9041c61960dfa4e231883c477184da3ce9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 24/41] fix: event dispatching nodes can be created with
 arguments

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 28b72c4..3b08014 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -250,7 +250,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 44e63c88747c5ebf807bce662d78d062c5181e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 25/41] fix: referencing nodes can hold classes of referencing
 nodes as values

---
 src/node/behaviors/reference.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index efa90ab..8f31c7c 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -78,7 +78,7 @@ class Reference(Behavior):
     @plumb
     def detach(_next, self, key):
         node = _next(self, key)
-        if hasattr(node, '_index_nodes'):
+        if IReference.providedBy(node):
             node._index = {int(node.uuid): node}
             node._index_nodes()
         return node
@@ -98,7 +98,7 @@ class Reference(Behavior):
     def _unindex(self, child):
         """Remove subtree of removed child from index and give it its own.
         """
-        if hasattr(child, '_to_delete'):
+        if IReference.providedBy(child):
             for iuuid in child._to_delete():
                 self._index.pop(iuuid, None)
             child._index = {int(child.uuid): child}
@@ -134,22 +134,19 @@ class Reference(Behavior):
     def _to_delete(self):
         todel = [int(self.uuid)]
         for childkey in self:
-            try:
-                todel += self[childkey]._to_delete()
-            except AttributeError:
-                # Non-Node values or non referencing children are not told
-                # about deletion.
-                continue
+            child = self[childkey]
+            # Non-Node values or non referencing children are not told
+            # about deletion.
+            if IReference.providedBy(child):
+                todel += child._to_delete()
         return todel
 
     @default
     def _index_nodes(self):
         for node in self.values():
-            try:
-                uuid = int(node.uuid)
-            except AttributeError:
-                # non-Node values are a dead end, no magic for them
+            # non-Node values are a dead end, no magic for them
+            if not IReference.providedBy(node):
                 continue
-            self._index[uuid] = node
+            self._index[int(node.uuid)] = node
             node._index = self._index
             node._index_nodes()
-- 
2.43.0


From 30e046dd7867d9403966e408313ff905b6d33219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 26/41] fix: attributes can be deleted through attribute access

---
 src/node/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d52305b..23a7d0b 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -119,6 +119,13 @@ class AttributeAccess(object):
         context = object.__getattribute__(self, 'context')
         context[name] = value
 
+    def __delattr__(self, name):
+        context = object.__getattribute__(self, 'context')
+        try:
+            del context[name]
+        except KeyError:
+            raise AttributeError(name)
+
     def __getitem__(self, name):
         context = object.__getattribute__(self, 'context')
         return context[name]
-- 
2.43.0


From 855b4764632c957f22d56cff3c18cfc2e1ba633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 27/41] fix: invalidating a cached node invalidates all keys if
 none is given

---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index ac502fb..ae6f853 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -93,8 +93,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From be2838b87f65553971f4447487c039d78d5a0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 28/41] fix: binding to an unknown event binds nothing at all

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 3b08014..9e73bf5 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -271,10 +271,11 @@ class Events(Behavior):
         :param kw: Each keyword argument is the event name and the argument
             value is the subscriber callable.
         """
-        for event, subscriber in kw.items():
+        for event in kw:
             if event not in self.__events__ \
                     and event not in self.__class__.__events__:
                 raise UnknownEvent(event)
+        for event, subscriber in kw.items():
             subscribers = self.__subscribers__.setdefault(event, list())
             if subscriber not in subscribers:
                 subscribers.append(subscriber)
-- 
2.43.0


From 57d89fc8f1b6ba051b51446159cffce21a4d6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 29/41] fix: fallback lookup continues rootwards from plain
 values

---
 src/node/behaviors/fallback.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 675bffe..0ef00c7 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from node.interfaces import IFallback
+from node.interfaces import INode
 from plumber import Behavior
 from plumber import default
 from plumber import plumb
@@ -35,7 +36,8 @@ def _to_root(node, path, visited):
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
     fallback = parent.get(parent.fallback_key, _marker)
-    if fallback is _marker:
+    if not INode.providedBy(fallback):
+        # No such child, or a plain value, there's nothing to look at below it.
         return _to_root(parent, path=path, visited=visited)
     return _to_leaf(fallback, path=path, visited=visited)
 
@@ -45,10 +47,13 @@ def _to_leaf(node, path, visited):
     """
     current = node
     for name in path[len(current.path):]:
-        new_current = current.get(name, _marker)
-        if new_current is _marker:
-            return _to_root(current, path=path, visited=visited)
-        current = new_current
+        if not INode.providedBy(current):
+            # A plain value on the path, it has no children.
+            return _to_root(container, path=path, visited=visited)
+        container = current
+        current = container.get(name, _marker)
+        if current is _marker:
+            return _to_root(container, path=path, visited=visited)
     return current
 
 
-- 
2.43.0


From 4f80d83244a856ac9a4f91e8121b8a43d8433c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 30/41] fix: NodeDecoder resolves members of modules hidden by
 package attributes

---
 src/node/serializer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index a85ea31..9dab19d 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -10,6 +10,7 @@ from node.utils import UNSET
 from odict import odict
 from zope.interface import Interface
 import json
+import sys
 import uuid
 
 
@@ -148,13 +149,19 @@ class NodeDecoder(object):
         path = components[0]
         ob = __import__(path)
         for comp in components[1:]:
-            path = '.'.join([path, comp])
-            try:
-                ob = getattr(ob, comp)
-            except AttributeError:
-                # possibly a module which is not imported yet
-                __import__(path)
-                ob = getattr(ob, comp)
+            parent, path = path, '.'.join([path, comp])
+            if not hasattr(ob, comp):
+                try:
+                    # possibly a module which is not imported yet
+                    __import__(path)
+                except ImportError:
+                    # possibly contained in a module which is hidden by an
+                    # attribute of its package with the same name
+                    module = sys.modules.get(parent)
+                    if module is ob or not hasattr(module, comp):
+                        raise
+                    ob = module
+            ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From 8cd823d88495663e4890dd555df54be6bbd7b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 31/41] fix: nodes accessing attributes as object attributes
 can be serialized

---
 src/node/serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 9dab19d..a2802fe 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -6,6 +6,7 @@ from node.compat import IS_PY2
 from node.compat import STR_TYPE
 from node.interfaces import IAttributes
 from node.interfaces import INode
+from node.utils import AttributeAccess
 from node.utils import UNSET
 from odict import odict
 from zope.interface import Interface
@@ -242,7 +243,10 @@ def deserialize_node(decoder, node, data):
 @serializer(IAttributes)
 def serialize_node_attributes(encoder, node, data):
     attrs = data.setdefault('attrs', dict())
-    for name, child in node.attrs.items():
+    node_attrs = node.attrs
+    if isinstance(node_attrs, AttributeAccess):
+        node_attrs = object.__getattribute__(node_attrs, 'context')
+    for name, child in node_attrs.items():
         attrs[name] = encoder.default(child)
 
 
-- 
2.43.0


From ce82f531fdbcc1e9a73c31a5a26da656b8991de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 32/41] fix: nodes of nested classes can be deserialized

---
 src/node/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index a2802fe..95a5308 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -103,7 +103,8 @@ class NodeEncoder(json.JSONEncoder):
                 [ob.im_class.__module__, ob.im_class.__name__, ob.__name__]
             )
         else:
-            return '.'.join([ob.__module__, ob.__class__.__name__])
+            # an instance, the name of its class is wanted
+            return self.dotted_name(ob.__class__)
 
     def default(self, ob):
         # serialize UNSET
-- 
2.43.0


From f78f9e81abe6f50b9edc234cd6fc6403cbf5119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 33/41] fix: acquire continues past ancestors which are false

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..b2c96ca 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 6c6cecfc9083931c0915c831cb4becbbccca050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 34/41] fix: node.events can be imported before node.behaviors

---
 src/node/events.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/events.py b/src/node/events.py
index af70eb5..da78099 100644
--- a/src/node/events.py
+++ b/src/node/events.py
@@ -1,8 +1,4 @@
 # -*- coding: utf-8 -*-
-from node.behaviors import EventAttribute
-from node.behaviors import Events
-from node.behaviors import UnknownEvent
-from node.behaviors import suppress_events
 from node.interfaces import INodeAddedEvent
 from node.interfaces import INodeCreatedEvent
 from node.interfaces import INodeDetachedEvent
@@ -45,6 +41,14 @@ class NodeDetachedEvent(ObjectRemovedEvent):
     pass
 
 
+# node.behaviors needs the lifecycle events, thus it gets imported after they
+# are defined. Otherwise importing this module first would fail.
+from node.behaviors import EventAttribute                          # noqa: E402
+from node.behaviors import Events                                  # noqa: E402
+from node.behaviors import UnknownEvent                            # noqa: E402
+from node.behaviors import suppress_events                         # noqa: E402
+
+
 ###############################################################################
 # Event dispatcher using IEvents plumbing behavior
 ###############################################################################
-- 
2.43.0


From bce5f2218c3a89206440059fdb566d1db1a2c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 35/41] fix: fallback lookup visits nodes by identity, equal or
 unhashable nodes are looked up too

---
 src/node/behaviors/fallback.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 0ef00c7..bb91701 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -32,9 +32,10 @@ def _to_root(node, path, visited):
     parent = node.__parent__
     if parent is None:
         return _marker
-    if not getattr(parent, 'fallback_key', _marker) or node in visited:
+    if not getattr(parent, 'fallback_key', _marker) or id(node) in visited:
         return _to_root(parent, path=path, visited=visited)
-    visited.update({node})
+    # by identity, nodes may be equal or not hashable
+    visited[id(node)] = node
     fallback = parent.get(parent.fallback_key, _marker)
     if not INode.providedBy(fallback):
         # No such child, or a plain value, there's nothing to look at below it.
@@ -73,7 +74,7 @@ class Fallback(Behavior):
             with fallback_processing() as count:
                 if count > 0:
                     raise
-                value = _to_root(self, path=self.path + [key], visited=set())
+                value = _to_root(self, path=self.path + [key], visited=dict())
                 if value is _marker:
                     raise
         return value
-- 
2.43.0


From 8f4ffb139c648b73c16228c6749eeabfc768b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 36/41] fix: a uuid with all bits cleared is indexed like any
 other

---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 8f31c7c..ab1aa3d 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -111,11 +111,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From b3dd51d49714b392fd428f5b395a89fc4c854099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 37/41] fix: refused insertions are taken back whatever the
 exception is

---
 src/node/behaviors/common.py    | 2 +-
 src/node/behaviors/order.py     | 2 +-
 src/node/behaviors/reference.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index f3f808d..ff6ea2b 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,7 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except Exception:
+        except BaseException:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 29dcd03..a45fa2b 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -55,7 +55,7 @@ class Order(Behavior):
         name = newnode.name
         try:
             self[name] = newnode
-        except Exception:
+        except BaseException:
             # insertion refused, remove from position reserved on storage
             if name in self.storage:
                 del self.storage[name]
diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index ab1aa3d..531a3ba 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -60,7 +60,7 @@ class Reference(Behavior):
             node._index = self._index
         try:
             _next(self, key, val)
-        except Exception:
+        except BaseException:
             for iuuid, node in index.items():
                 del self._index[iuuid]
                 node._index = index
-- 
2.43.0


From a8e092fbbebf92c70f327207e9f8d86721e57eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 38/41] fix: attribute subscribers leaked to dispatching of
 other events and objects

---
 src/node/behaviors/events.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 9e73bf5..f432ec4 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -99,21 +99,36 @@ class UnknownEvent(ValueError):
 class _attribute_subscribers_data(threading.local):
 
     def __init__(self):
-        self.subscribers = list()
+        self.pending = None
 
 
 _attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
-def _subscribers(subscribers):
+def _subscribers(obj, event, subscribers):
     """Context manager to inject subscribers to ``Events.dispatch``.
 
     Used in to inject subscribers registered with
-    ``EventAttributes.subscriber`` decorator.
+    ``EventAttributes.subscriber`` decorator. They are considered by the
+    dispatch of given event on given object only.
+    """
+    pending = _attribute_subscribers.pending
+    _attribute_subscribers.pending = (obj, event, subscribers)
+    try:
+        yield
+    finally:
+        _attribute_subscribers.pending = pending
+
+
+def _take_subscribers(obj, event):
+    """Return subscribers injected for dispatching event on object.
     """
-    _attribute_subscribers.subscribers = subscribers
-    yield
+    pending = _attribute_subscribers.pending
+    if pending is None or pending[0] is not obj or pending[1] != event:
+        return list()
+    _attribute_subscribers.pending = None
+    return pending[2]
 
 
 class EventAttribute(object):
@@ -196,14 +211,14 @@ class EventAttribute(object):
         old_value = storage.get(self.name, self.default)
         storage[self.name] = value
         if self.always_dispatch or value != old_value:
-            with _subscribers(self.subscribers):
+            with _subscribers(obj, self.name, self.subscribers):
                 obj.dispatch(self.name, value)
 
     def __delete__(self, obj):
         """Delete attribute value.
         """
         del getattr(obj, self.storage)[self.name]
-        with _subscribers(self.subscribers):
+        with _subscribers(obj, self.name, self.subscribers):
             obj.dispatch(self.name, UNSET)
 
     def subscriber(self, func):
@@ -310,8 +325,7 @@ class Events(Behavior):
         :param args: Arguments passed to subscribers.
         :patam kw: Keyword arguments passed to subscribers.
         """
-        attribute_subscribers = _attribute_subscribers.subscribers
-        _attribute_subscribers.subscribers = list()
+        attribute_subscribers = _take_subscribers(self, event)
         if suppress_events.data.suppress > 0:
             if ALL_EVENTS in suppress_events.data.events:
                 return
-- 
2.43.0


From 835f8211f9ae19c2728edc081ac4c48ef3513d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 39/41] fix: locking a tree looked up its lock among the
 children of the root

---
 src/node/locking.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index 77c246c..9a18544 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -16,14 +16,24 @@ class RLock(type(threading.RLock())):
 _creation_lock = Lock()
 
 
+def _existing_lock(root):
+    """Return lock of the tree if already created. ``__getattr__`` hooks are not
+    considered, they may look up children and thus lock the tree on their own.
+    """
+    try:
+        return object.__getattribute__(root, '_treelock')
+    except AttributeError:
+        return None
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
+        self.lock = _existing_lock(root)
         if self.lock is None:
             with _creation_lock:
-                self.lock = getattr(root, '_treelock', None)
+                self.lock = _existing_lock(root)
                 if self.lock is None:
                     self.lock = root._treelock = RLock()
 
-- 
2.43.0


From 9da966796447ce41761a08f7cff836dc62d89296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 40/41] fix: IAttributes promised an attribute of another name
 than behavior has

---
 src/node/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/interfaces.py b/src/node/interfaces.py
index e41c6eb..2f178ba 100644
--- a/src/node/interfaces.py
+++ b/src/node/interfaces.py
@@ -334,7 +334,7 @@ class IAttributes(Interface):
     """Plumbing behavior to provide attributes on node.
     """
     attrs = Attribute('``INodeAttributes`` implementation.')
-    attrs_factory = Attribute('``INodeAttributes`` implementation class.')
+    attributes_factory = Attribute('``INodeAttributes`` implementation class.')
 
 
 class ILifecycle(Interface):
-- 
2.43.0


From 2d616403816876286b5c6fefbea6d711e220876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 41/41] fix: copying a node with fixed children accessible as
 attributes recursed endlessly

---
 src/node/behaviors/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index ff6ea2b..1a2a067 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -93,6 +93,8 @@ class FixedChildren(Behavior):
          cone.app.model.FactoryNode. harmonize.
     """
     fixed_children_factories = default(None)
+    # no children as long as node is not initialized, e.g. while it is copied
+    _children = default(odict())
 
     @plumb
     def __init__(_next, self, *args, **kw):
-- 
2.43.0

