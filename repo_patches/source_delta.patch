From be5a44b71f10ec75d6f65eec9adcc70be4224f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 01/48] fix: Heap negative indexing returned the wrong element

Heap[-n] asked nlargest for one element too many and then indexed the
descending result with a negative index.
---
 big/heap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..2ee4008 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -145,8 +145,9 @@ class Heap:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            # nlargest returns the largest... IN REVERSE ORDER.
+            l = nlargest(-item, self._queue)
+            return l[-item - 1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From b566f0de231b6d923568fc09c620ff8b92b02490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 02/48] fix: repr of an empty Heap raised IndexError

---
 big/heap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 2ee4008..e6eca75 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -59,7 +59,8 @@ class Heap:
 
     def __repr__(self):
         id_string = hex(id(self))[-6:]
-        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
+        first = f" first={self._queue[0]}" if self._queue else ""
+        return f"<Heap {id_string} len={len(self._queue)}{first}>"
 
     def append(self, o):
         heappush(self._queue, o)
-- 
2.43.0


From 003f9ae8bcef4dd627d535891698d1b4f58e28c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 03/48] fix: PushbackIterator.__next__ swallowed every
 exception of the wrapped iterator

The bare except turned any error raised by the wrapped iterator (even
KeyboardInterrupt) into a silent StopIteration; next() and __bool__
already only catch StopIteration.
---
 big/itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..6faef73 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -44,7 +44,7 @@ class PushbackIterator:
         if self.i:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
-- 
2.43.0


From e388431e33634546932108c4fe097a8acc3dd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 04/48] fix: PushbackIterator dropped an iterator that happens
 to be falsy

An iterator object may define __bool__ or __len__; only None means
"exhausted".
---
 big/itertools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index 6faef73..c0e8a15 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -41,7 +41,7 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From 8348ff25a2136c78a39afd900d2acc8099dd1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 05/48] fix: number conversions raised OverflowError (or
 ValueError for nan)

int(float('inf')), int(float('nan')), float(10**400) and friends are
conversion failures, and these functions promise to report those with
their return value.
---
 big/builtin.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 7cca96a..c86fc0f 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -48,7 +48,7 @@ def try_float(o):
     try:
         float(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 @export
@@ -60,7 +60,7 @@ def try_int(o):
     try:
         int(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 _sentinel = object()
@@ -75,7 +75,7 @@ def get_float(o, default=_sentinel):
     """
     try:
         return float(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -90,7 +90,7 @@ def get_int(o, default=_sentinel):
     """
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -113,18 +113,22 @@ def get_int_or_float(o, default=_sentinel):
     if isinstance(o, int):
         return o
     if isinstance(o, float):
-        int_o = int(o)
+        try:
+            int_o = int(o)
+        except (ValueError, OverflowError):
+            # nan and infinity have no int value
+            return o
         if int_o == o:
             return int_o
         return o
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             # if you pass in the *string* "0.0",
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             if default != _sentinel:
                 return default
             return o
-- 
2.43.0


From 1c969e2fe5a809d7d00e2b17346fc0968b9229f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/48] fix: View.done corrupted predecessor counts on
 duplicate or invalid nodes

done('a', 'a') counted 'a' twice, making its successors ready before
their other predecessors were done.  done('a', <invalid>) applied 'a' to
the counts, raised ValueError, and left 'a' eligible to be counted again.
---
 big/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..d8ef68d 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -208,11 +208,15 @@ class TopologicalSorter:
                 raise ValueError("TopologicalSorter view has already been closed")
             if self._conflicts:
                 self._raise_conflicts()
+            # never process the same node twice, and don't change
+            # anything until we know all the nodes are okay.
+            nodes = tuple(dict.fromkeys(nodes))
             for node in nodes:
                 if node not in self.graph.nodes:
                     raise ValueError(f"node {node!r} was not added using add()")
                 if node not in self._yielded:
                     raise ValueError(f"node {node!r} was not passed out")
+            for node in nodes:
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
                 self._mark_node_done(node, self.graph.nodes[node][1])
             nodes = set(nodes)
-- 
2.43.0


From f0700bb0b58c6e75d4159568377a8721cfd57322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 07/48] fix: a successor added to a node already done never
 became ready

The edge was counted as an outstanding predecessor, but nothing would
ever decrement that count again, so the view never finished.
---
 big/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/graph.py b/big/graph.py
index d8ef68d..4c5479e 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -295,7 +295,8 @@ class TopologicalSorter:
                 self._conflicts[node].add(successor)
                 self._reverse_conflicts[successor].add(node)
 
-            if successor not in self._done:
+            # if node is already done, this dependency is already satisfied.
+            if conflict_1 and (successor not in self._done):
                 self._predecessors[successor] += 1
                 if self._predecessors[successor] == 1:
                     try:
-- 
2.43.0


From b22a76ed4d57e52759b024f1bda7aa7e862d4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 08/48] fix: TopologicalSorter.copy tied the copy's views to
 the original graph

The clone's default and stock views were registered with the original:
adding a node to the original changed the clone's views, and adding one
to the clone left its own views behind.  The dirty flag wasn't copied
either, so a cycle in the copy went undetected.
---
 big/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 4c5479e..3eb7df0 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -570,10 +570,10 @@ class TopologicalSorter:
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        clone.dirty = self.dirty
+        clone.views.clear()
+        clone._default_view = self.View(clone, original=self._default_view)
+        clone._stock_view = self.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From 84a3fa79dfc954ae03902779ee915de58986cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 09/48] fix: equal Version objects could have different hashes

Version('1.0rc') == Version('1.0rc0') and Version('1.0+1') ==
Version('1.0+01'), but their hashes differed.  Hash what __eq__ compares.
---
 big/version.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index 6138dc7..90a6492 100644
--- a/big/version.py
+++ b/big/version.py
@@ -352,15 +352,7 @@ class Version:
 
 
     def __hash__(self):
-        return (
-            hash(self._epoch)
-            ^ hash(self._release)
-            ^ hash(self._release_level)
-            ^ hash(self._serial)
-            ^ hash(self._post)
-            ^ hash(self._dev)
-            ^ hash(self._local)
-            )
+        return hash(self._tuple)
 
     @property
     def epoch(self):
-- 
2.43.0


From be8ff0df68cda881b5a7a983e4b3dee72a1cd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 10/48] fix: Version ignored an implicit post-release or
 dev-release number

PEP 440: '1.0.post' is '1.0.post0' and '1.0.dev' is '1.0.dev0'.
Both were parsed as plain '1.0'.
---
 big/version.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/version.py b/big/version.py
index 90a6492..03a36b4 100644
--- a/big/version.py
+++ b/big/version.py
@@ -230,6 +230,9 @@ class Version:
             elif post_n2 is not None:
                 assert post_l is not None
                 post = post_n2
+            elif post_l is not None:
+                # implicit post release number
+                post = 0
             else:
                 post = None
 
@@ -239,6 +242,9 @@ class Version:
             dev = get('dev_n')
             if dev is not None:
                 assert dev_l is not None
+            elif dev_l is not None:
+                # implicit development release number
+                dev = 0
             dev = int(dev) if dev is not None else None
 
             local = original_local = get('local')
-- 
2.43.0


From 87315d94c2e0e40028309eaa67fdabba5c33f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 11/48] fix: Version strings weren't case-insensitive

PEP 440 says case doesn't matter, and the regular expression accepts any
case, but '1.0RC1' failed an assertion and '1.0+ABC' != '1.0+abc'.
---
 big/version.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index 03a36b4..335dd14 100644
--- a/big/version.py
+++ b/big/version.py
@@ -170,7 +170,7 @@ class Version:
             if not isinstance(s, str):
                 raise ValueError("you must specify either a version string or explicit keyword arguments")
 
-            match = _re_parse_version(s)
+            match = _re_parse_version(s.lower())
             if not match:
                 raise ValueError(f"invalid version initializer {s!r}") from None
 
@@ -254,6 +254,7 @@ class Version:
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
+            local = tuple(element.lower() for element in local)
             compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
         else:
             local = None
-- 
2.43.0


From 11635f718673a02001fd5d4dc7f5ad0cf1ed7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 12/48] fix: Version didn't strip trailing zeroes from the
 release keyword argument

Version(release=(1, 0)) != Version('1.0'), although the documentation
says both spellings are normalized.
---
 big/version.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/big/version.py b/big/version.py
index 335dd14..eed5677 100644
--- a/big/version.py
+++ b/big/version.py
@@ -199,13 +199,7 @@ class Version:
             epoch = get('epoch')
             epoch = int(epoch) if epoch is not None else None
 
-            release = [int(_) for _ in get('release').split('.')]
-            # if S is a release string, and T is S+".0",
-            # S and T represent the same version.
-            # so, let's clip off all trailing zero elements on release.
-            while (len(release) > 1) and (not release[-1]):
-                release.pop()
-            release = tuple(release)
+            release = tuple(int(_) for _ in get('release').split('.'))
 
             release_level = get('pre_l')
             if release_level is None:
@@ -251,6 +245,12 @@ class Version:
             if local is not None:
                 local = tuple(local.replace('-', '.').replace('_', '.').split('.'))
 
+        # if S is a release string, and T is S+".0",
+        # S and T represent the same version.
+        # so, let's clip off all trailing zero elements on release.
+        while (len(release) > 1) and (not release[-1]):
+            release = release[:-1]
+
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
-- 
2.43.0


From 642112ec4df56794b38c0f91c772ee361c2c4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 13/48] fix: Version accepted negative integers in the release
 keyword argument

Every field is documented to be non-negative, and the resulting object
had a string representation Version couldn't parse.
---
 big/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/version.py b/big/version.py
index eed5677..df4a5cb 100644
--- a/big/version.py
+++ b/big/version.py
@@ -122,8 +122,8 @@ class Version:
             elif not (isinstance(epoch, int) and (epoch >= 0)):
                 raise ValueError(f"epoch must be non-negative int or None, not {epoch!r}")
 
-            if not (isinstance(release, tuple) and release and all(isinstance(element, int) for element in release)):
-                raise ValueError(f"release must be a tuple of length 1+ containing only ints, not {release!r}")
+            if not (isinstance(release, tuple) and release and all(isinstance(element, int) and (element >= 0) for element in release)):
+                raise ValueError(f"release must be a tuple of length 1+ containing only non-negative ints, not {release!r}")
 
             original_release_level = release_level
             if release_level is None:
-- 
2.43.0


From dc3dd80b17f5211e21f5673f1493d2c42dd8bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 14/48] fix: Version accepted a serial for a final release

str() on such an object failed an assertion.
---
 big/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/version.py b/big/version.py
index df4a5cb..7ca4a65 100644
--- a/big/version.py
+++ b/big/version.py
@@ -136,6 +136,9 @@ class Version:
             elif not (isinstance(serial, int) and (serial >= 0)):
                 raise ValueError(f"serial must be non-negative int or None, not {serial!r}")
 
+            if serial and (release_level == 'final'):
+                raise ValueError("you cannot specify a serial for a final release")
+
             if not ((post is None) or (isinstance(post, int) and (post >= 0))):
                 raise ValueError(f"post must be non-negative int or None, not {post!r}")
 
-- 
2.43.0


From 71d9e2d3edff32bd45cf07152640f0ee10e09bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 15/48] fix: Version accepted a local segment ending with a
 newline

In a regular expression '$' also matches just before a trailing newline.
---
 big/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index 7ca4a65..62e9dcf 100644
--- a/big/version.py
+++ b/big/version.py
@@ -91,7 +91,7 @@ _re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).matc
 
 del VERSION_PATTERN
 
-_re_is_valid_local_segment = re.compile("^[A-Za-z0-9]+$").match
+_re_is_valid_local_segment = re.compile(r"^[A-Za-z0-9]+\Z").match
 
 
 
-- 
2.43.0


From aa3adda803fb6c6e4e4fb235550bf656be2e2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 16/48] fix: Version rejected the documented release_level
 abbreviations

The documentation says release_level must be 'a', 'b', or 'rc', and that
abbreviations are normalized; the constructor raised ValueError for
'a' and 'b'.
---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index 62e9dcf..fe8d8e6 100644
--- a/big/version.py
+++ b/big/version.py
@@ -128,6 +128,8 @@ class Version:
             original_release_level = release_level
             if release_level is None:
                 release_level = 'final'
+            elif isinstance(release_level, str):
+                release_level = _release_level_normalize.get(release_level, release_level)
             if not (release_level in _release_level_allowed_values):
                 raise ValueError(f"release_level {release_level!r} must be one of 'alpha', 'beta', 'rc', 'final', or None")
 
-- 
2.43.0


From a2a58518d6fcb11d589458bf114bf0c1d2305f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 17/48] fix: pushd restored the directory current at
 construction, not at entry

---
 big/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/file.py b/big/file.py
index d9bcf65..dca6cca 100644
--- a/big/file.py
+++ b/big/file.py
@@ -192,8 +192,9 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        self.cwd = None
     def __enter__(self):
+        self.cwd = os.getcwd()
         os.chdir(self.path)
     def __exit__(self, exc_type, exc_value, traceback):
         os.chdir(self.cwd)
-- 
2.43.0


From d3bc96bc424c38ef8c0d52f21d5bd452162110d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 18/48] fix: re_partition and re_rpartition split at the
 matched text, not at the match

They partitioned s with str.partition(match.group(0)), which finds the
first (or last) occurrence of that text rather than the match itself.
re_partition('ab cb', '(?<=c)b') split at the first 'b', and a
zero-length match raised ValueError.
---
 big/text.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..2d3a1d2 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,8 +441,7 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         match = pattern.search(s)
         if not match:
             return (s, None, empty)
-        before, separator, after = s.partition(match.group(0))
-        return (before, match, after)
+        return (s[:match.start()], match, s[match.end():])
 
     if count == 0:
         return (s,)
@@ -453,17 +452,18 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
     result = []
     extend = result.extend
     matches_iterator = pattern.finditer(s)
+    start = 0
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            before, separator, s = s.partition(match.group(0))
-            extend((before, match))
+            extend((s[start:match.start()], match))
+            start = match.end()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[start:])
     return tuple(result) + extension
 
 
@@ -787,8 +787,7 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         matches_iterator = reversed_re_finditer(pattern, s, flags)
         try:
             match = next(matches_iterator)
-            before, separator, after = s.rpartition(match.group(0))
-            return (before, match, after)
+            return (s[:match.start()], match, s[match.end():])
         except StopIteration:
             return (empty, None, s)
 
@@ -801,17 +800,18 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
     result = []
     extend = result.extend
     matches_iterator = reversed_re_finditer(pattern, s, flags)
+    end = len(s)
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            s, separator, after = s.rpartition(match.group(0))
-            extend((after, match))
+            extend((s[match.end():end], match))
+            end = match.start()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[:end])
     result.reverse()
     return extension + tuple(result)
 
-- 
2.43.0


From 5cb68f9aeaedf95ead4bb72d9eb7b46eb6e8fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 19/48] fix: multistrip removed a trailing newline that isn't a
 separator

In a regular expression '$' also matches just before a trailing newline,
so multistrip('abc \n', (' ',)) returned 'abc'.
---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2d3a1d2..7838de6 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,7 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'$'
+        tail = br'\Z'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +911,7 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '$'
+        tail = r'\Z'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
-- 
2.43.0


From a4fc067fe836ae9b616f1cd05545a5a196a34f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 20/48] fix: gently_title missed words after a lone D or O or a
 detached quote mark

Whitespace only ended a word in the plain in-word state, so 'vitamin d is'
became 'Vitamin D is'.
---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 7838de6..17b8bc4 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1712,6 +1712,8 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
                     state = _after_whitespace_then_D_or_O
                 else:
                     state = _in_word
+        elif is_space:
+            state = _after_whitespace
         elif state == _after_whitespace_then_apostrophe_or_double_quote:
             if not (is_apostrophe or is_double_quote):
                 c = c.upper()
-- 
2.43.0


From ee11635e6a7407d00c3830fd9f9841dcec39732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 21/48] fix: split_delimiters lost track of its position after
 an ignored token

A token flushed as ordinary text wasn't added to 'consumed', so a later
re-split started too early and yielded text twice (and SyntaxError
reported the wrong index).
---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index 17b8bc4..3f02bd8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2639,6 +2639,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From d90a8897c0feb2f99d11e34f2be6b8b0b8bf2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 22/48] fix: split_quoted_strings ignored escapes of multiline
 quote marks

Only the marks in quotes got an escaped form, so an escaped multiline
quote mark ended the quoted string.
---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 3f02bd8..7779b9d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2125,7 +2125,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
 
     # and also all escaped quote marks.
     if escape:
-        for first_character in {q[0:] for q in quotes}:
+        for first_character in {q[0:] for q in all_quotes_set}:
             separators.append(escape + first_character)
         separators.append(escape + escape)
 
-- 
2.43.0


From 734dd844d2b1296aa185e2db036f69dcda826cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 23/48] fix: LineInfo.clip_trailing clipped the whole line when
 asked to clip nothing

line[:-0] is empty.  lines_rstrip relied on that, so it now passes in the
string to clip.
---
 big/text.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 7779b9d..8d53595 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2948,7 +2948,8 @@ class LineInfo:
             i = s
             s = None
             l = line
-        line = line[:-i]
+        # careful, line[:-0] would be empty.
+        line = line[:len(line)-i]
         if not line:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
@@ -2961,7 +2962,7 @@ class LineInfo:
             self.leading = empty
             return empty
         if s is None:
-            s = l[-i:]
+            s = l[len(l)-i:]
         self.trailing = s + self.trailing
         return line
 
@@ -3137,14 +3138,14 @@ def lines_rstrip(li, separators=None):
         for info, line in li:
             rstripped = line.rstrip()
             if rstripped != line:
-                line = info.clip_trailing(line, -len(rstripped))
+                line = info.clip_trailing(line, line[len(rstripped):])
             yield (info, line)
         return
 
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
-            line = info.clip_trailing(line, -len(rstripped))
+            line = info.clip_trailing(line, line[len(rstripped):])
         yield (info, rstripped)
 
 
-- 
2.43.0


From d2513018e348f60f809f877af423e43863a8f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 24/48] fix: clipping a whole line didn't restore column_number
 past clipped tabs

clip_leading adds the detabbed width of what it clips; undoing that
subtracted the raw length.
---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 8d53595..5750644 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2912,7 +2912,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2954,7 +2954,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From e979b537a5ca48c2a085bdc1e534ec4691c176ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 25/48] fix: lines_strip clipped the wrong text when separators
 overlap the line

line.partition(stripped) finds the first occurrence of the stripped text,
which isn't necessarily where it was stripped from.
---
 big/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 5750644..33ae067 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3172,7 +3172,9 @@ def lines_strip(li, separators=None):
             if line:
                 stripped = multistrip(line, separators)
                 if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                    lstripped = multistrip(line, separators, right=False)
+                    leading = line[:len(line) - len(lstripped)]
+                    trailing = lstripped[len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From 1c0ab1079d313a8519792337157752346636be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 26/48] fix: lines_strip_indent rejected a dedent of two or
 more levels

Dedenting more than one level to an indent other than the outermost
raised IndentationError, because the comparison was backwards.
---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 33ae067..319a944 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3649,8 +3649,8 @@ def lines_strip_indent(li):
             indent -= 1
             while leadings:
                 l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
+                if l <= column_number:
+                    if l < column_number:
                         leadings.clear()
                     break
                 leadings.pop()
-- 
2.43.0


From cc7e8b6150a92c981260c6f66f559ea73b4e68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 27/48] fix: wrap_words ignored two_spaces=False

The parameter was overwritten with the two-space string.
---
 big/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 319a944..9434fcc 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3749,13 +3749,13 @@ def wrap_words(words, margin=79, *, two_spaces=True):
             if isinstance(word, bytes):
                 empty = lastword = b''
                 sentence_ending_punctuation = (b'.', b'?', b'!')
-                two_spaces = b'  '
+                two_spaces_string = b'  '
                 one_space = b' '
                 newline = b'\n'
             else:
                 empty = lastword = ''
                 sentence_ending_punctuation = ('.', '?', '!')
-                two_spaces = '  '
+                two_spaces_string = '  '
                 one_space = ' '
                 newline = '\n'
 
@@ -3768,7 +3768,7 @@ def wrap_words(words, margin=79, *, two_spaces=True):
         l = len(word)
 
         if two_spaces and lastword.endswith(sentence_ending_punctuation):
-            space = two_spaces
+            space = two_spaces_string
             len_space = 2
         else:
             space = one_space
-- 
2.43.0


From f6138e9ce4c157ff16820a22cbbd39d663ce8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 28/48] fix: split_text_with_code lost a final code line
 without a newline

---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 9434fcc..3a36a1d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3944,6 +3944,9 @@ class _column_wrapper_splitter:
             self.state(empty.join(self.leading), empty.join(self.word))
             self.leading.clear()
             self.word.clear()
+        # flush the current line of code, if any.
+        if self.state == self.state_in_code_line:
+            self.state(self.empty, self.newline_string)
 
     def state_paragraph_start(self, leading, word):
         """
-- 
2.43.0


From e74b8a415780c82d2533e827e9621df2f0ab1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 29/48] fix: merge_columns misaligned columns with trailing
 whitespace

Overflow is measured on the stripped lines, but the unstripped lines were
padded, so whitespace past max_width pushed the next column over.
---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 3a36a1d..74fd93a 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4273,7 +4273,7 @@ def merge_columns(*columns, column_separator=None,
 
         in_overflow = False
         next_overflow()
-        for line_number, line in enumerate(lines):
+        for line_number, line in enumerate(rstripped_lines[:len(lines)]):
             if line_number > overflow_end:
                 in_overflow = False
                 next_overflow()
-- 
2.43.0


From 43e05526713e2eb4fab41ec05d4053ca28c7a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 30/48] fix: Log.print printed the wrong fraction for times of
 a second or more

It subtracted the number of seconds from the number of nanoseconds, so
1.5 seconds was printed as 01.149999999.
---
 big/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..f022eff 100644
--- a/big/log.py
+++ b/big/log.py
@@ -179,7 +179,7 @@ class Log:
         def format_time(t):
             assert t is not None
             seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            nanoseconds = f"{t - (seconds * 1_000_000_000):>09}"
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From 06b58ff8a334dedadb5f08a6d9107a2c8fcfa98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 31/48] fix: timestamp_3339Z didn't pad the year to four digits

RFC 3339 requires four digits; strftime('%Y') doesn't pad on Linux.
---
 big/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/time.py b/big/time.py
index 4212e19..573742f 100644
--- a/big/time.py
+++ b/big/time.py
@@ -166,7 +166,7 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     else:
         f = _timestamp_3339Z_format
 
-    return t.strftime(f)
+    return t.strftime(f.replace("%Y", f"{t.year:04d}"))
 
 
 @export
-- 
2.43.0


From 8b479f3040729fb4398733fd3366d74072b91c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 32/48] fix: deprecated split_quoted_strings raised
 RuntimeError on a final quote mark

next() inside a generator leaked StopIteration when the text ended
right after an opening quote mark.
---
 big/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 84ec58f..2d67ed6 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -153,10 +153,11 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
                 in_quote = c
                 continue
             # scan for triple quotes.
-            c2 = next(i)
+            c2 = i.next(None)
             if c2 != c:
                 # only a single quote mark. flush unquoted string, start quoted string.
-                i.push(c2)
+                if c2 is not None:
+                    i.push(c2)
                 if text:
                     yield False, empty_join(text)
                     text.clear()
-- 
2.43.0


From dd9cbf141f3854384fdd70b7fd702d04a4a8955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 33/48] fix: StateManager could call stale observers

The cached copy was compared by equality, so replacing an observer with
a different object that compares equal had no effect.
---
 big/state.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..1202f6d 100644
--- a/big/state.py
+++ b/big/state.py
@@ -232,10 +232,8 @@ class StateManager:
             if on_exit is not None:
                 on_exit()
         if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
+            # iterate over a copy, observers may modify the list.
+            for o in tuple(self.observers):
                 o(self)
 
         self.__state = state
@@ -277,8 +275,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From 4309e683284121c051d428bde5effe847ddd0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 34/48] fix: an exception in on_exit or an observer wedged the
 StateManager

next was left set to the abandoned state, so every later transition
raised TransitionError.
---
 big/state.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/big/state.py b/big/state.py
index 1202f6d..3c1fbae 100644
--- a/big/state.py
+++ b/big/state.py
@@ -227,14 +227,19 @@ class StateManager:
         self.__next = state
         # as of this moment we are "transitioning" to a new state.
 
-        if self.on_exit:
-            on_exit = getattr(self.__state, self.on_exit, None)
-            if on_exit is not None:
-                on_exit()
-        if self.observers:
-            # iterate over a copy, observers may modify the list.
-            for o in tuple(self.observers):
-                o(self)
+        try:
+            if self.on_exit:
+                on_exit = getattr(self.__state, self.on_exit, None)
+                if on_exit is not None:
+                    on_exit()
+            if self.observers:
+                # iterate over a copy, observers may modify the list.
+                for o in tuple(self.observers):
+                    o(self)
+        except BaseException:
+            # the transition failed, we're staying in the current state.
+            self.__next = None
+            raise
 
         self.__state = state
         self.__next = None
-- 
2.43.0


From edf63cdf2e76667cd73e83d5c69e94294117251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 35/48] fix: multisplit consumed a separators iterator while
 checking its types

The check exhausted the iterator, so s was then split with no separators
at all.
---
 big/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/text.py b/big/text.py
index 74fd93a..0a70a03 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1250,6 +1250,10 @@ def multisplit(s, separators=None, *,
     if check_separators:
         if not hasattr(separators, '__iter__'):
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+        # separators could be an iterator, we need to iterate over it more than once.
+        separators = tuple(separators)
+        if not separators:
+            raise ValueError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
-- 
2.43.0


From e7b0420d9de04530e93172b6ded6b58f944b304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 36/48] fix: multisplit(strip=PROGRESSIVE, maxsplit=None)
 didn't strip the far side

None means the same as -1.
---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 0a70a03..baa3b83 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1262,7 +1262,7 @@ def multisplit(s, separators=None, *,
 
     if strip:
         if strip == PROGRESSIVE:
-            if maxsplit == -1:
+            if maxsplit in (-1, None):
                 strip = left = right = True
             else:
                 left = not reverse
-- 
2.43.0


From 05807651cc3d929b9a2509788bdb34556907f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 37/48] fix: Heap[-1] on an empty heap raises IndexError

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index e6eca75..2eb91d9 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -140,7 +140,7 @@ class Heap:
             # fall through! it'll work!
         elif item == 0:
             return self._queue[0]
-        elif item == -1:
+        elif (item == -1) and self._queue:
             return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
-- 
2.43.0


From 64f61d1ad250890b543df84ba01f934b93f64e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 38/48] fix: ThreadSafeRegulator loses a wake that arrives
 between releasing the lock and sleeping

---
 big/scheduler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..d353704 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,20 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
-        self.event.set()
-        self.event.clear()
+        # Sleepers wait on the event object that was current
+        # when they looked up sleep (see below).  Set that one
+        # for good, and give later sleepers a new one.
+        event = self.event
+        self.event = threading.Event()
+        event.set()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        # Scheduler looks up sleep while holding the lock,
+        # but calls it after releasing the lock.  Binding the
+        # current event object here means a wake call that
+        # arrives in between still ends that sleep.
+        return self.event.wait
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From 4e214b6a0d8a007fd28b782a19addaf86d5c0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 39/48] fix: Version accepted non-ASCII letters equal to ASCII
 ones when ignoring case

---
 big/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index fe8d8e6..dae4bee 100644
--- a/big/version.py
+++ b/big/version.py
@@ -87,7 +87,7 @@ VERSION_PATTERN = r"^\s*" + r"""
     (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
 """ + r"\s*$"
 
-_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).match
+_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE).match
 
 del VERSION_PATTERN
 
-- 
2.43.0


From 10c1f07a7ea7a4d350d611afcb3c17c117ea27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 40/48] fix: compare the default with the sentinel by identity
 in the number getters

get_int, get_float and get_int_or_float compared the default to the private
sentinel with !=, so a default with its own comparison (an array, mock.ANY)
was ignored or made the call raise.
---
 big/builtin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index c86fc0f..3d12900 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -76,7 +76,7 @@ def get_float(o, default=_sentinel):
     try:
         return float(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -91,7 +91,7 @@ def get_int(o, default=_sentinel):
     try:
         return int(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -129,7 +129,7 @@ def get_int_or_float(o, default=_sentinel):
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
         except (TypeError, ValueError, OverflowError):
-            if default != _sentinel:
+            if default is not _sentinel:
                 return default
             return o
 
-- 
2.43.0


From 2b85ecbdec793f460f47e61f7271f41c1d88bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 41/48] fix: a pushd object can be entered again while it is
 active

The directory to return to was kept in a single attribute, so entering the
same object twice returned to the wrong directory at the outer exit.
---
 big/file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/file.py b/big/file.py
index dca6cca..7631983 100644
--- a/big/file.py
+++ b/big/file.py
@@ -192,12 +192,13 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = None
+        self.cwds = []
     def __enter__(self):
-        self.cwd = os.getcwd()
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From daa9f8605a4b29481da145c871beb849a9a8ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 42/48] fix: case-insensitive fgrep missed lines with a final
 sigma

str.lower() maps a capital sigma at the end of a word to a different letter
than elsewhere, so a line could fail to match text it literally contains.
---
 big/file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/file.py b/big/file.py
index 7631983..bcaa6c6 100644
--- a/big/file.py
+++ b/big/file.py
@@ -99,9 +99,10 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
             return [line for line in split if text in line]
 
-        lower_contents = contents.lower()
-        lower_split = lower_contents.split(separator)
-        text = text.lower()
+        # lower() is context-sensitive (final sigma), casefold() isn't.
+        fold = bytes.lower if isinstance(text, bytes) else str.casefold
+        lower_split = [fold(line) for line in split]
+        text = fold(text)
         if enumerate:
             return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
         return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
-- 
2.43.0


From 4166129981c8db3728b662ccf96308c321fb536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 43/48] fix: datetime_ensure_timezone replaced a time zone
 object that is falsy

---
 big/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/time.py b/big/time.py
index 573742f..4a27743 100644
--- a/big/time.py
+++ b/big/time.py
@@ -198,7 +198,7 @@ def datetime_ensure_timezone(d, timezone):
     object equivalent to d with its tzinfo set
     to timezone.
     """
-    if d.tzinfo:
+    if d.tzinfo is not None:
         return d
     return datetime_set_timezone(d, timezone)
 
-- 
2.43.0


From 5306728f10e2966ec3f08dbc5cba17b20e886eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 44/48] fix: a local struct_time in a time zone abbreviated GMT
 but not at UTC was taken for UTC

---
 big/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/time.py b/big/time.py
index 4a27743..16d27dc 100644
--- a/big/time.py
+++ b/big/time.py
@@ -74,7 +74,7 @@ def timestamp_human(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
+        if t.tm_zone == "GMT" and not t.tm_gmtoff:
             t = calendar.timegm(t)
         else:
             t = time.mktime(t)
@@ -138,7 +138,7 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
+        if t.tm_zone == "GMT" and not t.tm_gmtoff:
             t = calendar.timegm(t)
         else:
             t = time.mktime(t)
-- 
2.43.0


From b6190dda67b3bec3edc8f33819edd01491a0681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 45/48] fix: combine_splits did not notice a too long split
 when another one ended first

---
 big/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/text.py b/big/text.py
index baa3b83..9cd7d29 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1572,6 +1572,11 @@ def combine_splits(s, *split_arrays):
     # Throw away empty entries in split arrays.  (If one array was ['', '', ''], it would now be empty.)
     split_lengths = [ split  for split in split_lengths  if split ]
 
+    length = len(s)
+    for split in split_lengths:
+        if sum(split) > length:
+            raise ValueError("split array is longer than the original string")
+
     heapq.heapify(split_lengths)
 
     return _combine_splits(s, split_lengths)
-- 
2.43.0


From d13cb85a83f30fd2d55a2fd3328b5ede9cf39cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 46/48] fix: reversed_re_finditer missed matches starting
 inside a match further left

The pattern was tried inside a forward match only when that match itself was
next, so 'a{1,2}' in 'aaa' gave 'a', 'aa' instead of 'aa', 'a'.
---
 big/text.py | 253 +++++++++++-----------------------------------------
 1 file changed, 54 insertions(+), 199 deletions(-)

diff --git a/big/text.py b/big/text.py
index 9cd7d29..6a0c795 100644
--- a/big/text.py
+++ b/big/text.py
@@ -482,112 +482,35 @@ def reversed_re_finditer(pattern, string):
     #    'efg', 'd', 'c', 'ab'
     #
     # so what we do is: we ask re.finditer for all the forward
-    # matches.  then, for every match it found, we check every
-    # overlapping character to see if there's a different match
-    # there that we might prefer.  if we prefer one of those,
-    # we yield that--but we keep around the other matches,
-    # because one of those (or a truncated version of it) might
-    # also work.
-
-
-    # matches and overlapping_matches are lists of 3-tuples of:
-    #    (end_pos, -start_pos, match)
-    # If we sort one of those lists, the last element will be
-    # the correct last match in "reverse" order.  See
-    #    https://en.wikipedia.org/wiki/Schwartzian_transform
+    # matches.  the pattern can only match at the start of one of
+    # these matches, or somewhere inside it, so we check every one
+    # of those positions for a match.
     #
-    # matches contains the list of matches we got directly from
-    # re.finditer(), reversed.  since this was found using re in
-    # "forward" order, we need to check every match in this list
-    # for potential overlapping matches.
-    matches = [(match.end(), -match.start(), match) for match in pattern.finditer(string)]
-    if not matches:
-        # print(f"no matches at all! exiting immediately.")
-        return
-
-    # Does this pattern match zero-length strings?
-    zero_length_match = pattern.match(string, 0, 0)
-    if zero_length_match:
-        # This pattern matches zero-length strings.
-        # Since the rules are a little different for
-        # zero-length strings when in reverse mode,
-        # we need to doctor the match results a little.
-
-        # These seem to be the rules:
-        #
-        # In forwards mode, we consider two matches to overlap
-        # if they start at the same position, or if they have
-        # any characters in common.  There's an implicit
-        # zero-length string at the beginning and end of every
-        # string, so if the pattern matches against a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that starts at that position, we'll
-        # yield these matches too.  Since only a zero-length
-        # match can start at position len(string), we'll always
-        # yield a zero-length match starting and ending at
-        # position length(string) if the pattern matches there.
-        #
-        # In reverse mode, we consider two matches to overlap
-        # if they end at the same position, or if they have any
-        # characters in common with any other match.  There's an
-        # implicit zero-length string at the beginning and end of
-        # every string, so if the pattern matches a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that ends at that position, we'll yield
-        # these matches too.  Since only a zero-length match can
-        # end at position 0, we'll always yield a zero-length
-        # match starting and ending at position 0 if the pattern
-        # matches there.
-
-        # We need to ensure that, for every non-zero-length match,
-        # if the pattern matches a zero-length string starting at
-        # the same position, we have that zero-length match in
-        # matches too.
-        #
-        # So specifically we're going to do this:
-        #
-        # for every match m in matches:
-        #   if m has nonzero length,
-        #     and the pattern matches a zero-length string
-        #       starting at m,
-        #     ensure that the zero-length match is also in matches.
-        #   elif m has zero length,
-        #     if we've already ensured that a zero-length
-        #     match starting at m.start() is in matches,
-        #     discard m.
-
-        zeroes = set()
-        new_matches = []
-        append = new_matches.append
-        last_start = -1
-        for t in matches:
-            match = t[2]
-            start, end = match.span()
-
-            if start not in zeroes:
-                if (start == end):
-                    append(t)
-                    zeroes.add(start)
-                    continue
-
-                zero_match = pattern.match(string, start, start)
-                if zero_match:
-                    t_zero_length = (start, -start, zero_match)
-                    append(t_zero_length)
-                zeroes.add(start)
-            append(t)
-        # del zeroes
-        matches = new_matches
-
-    matches.sort()
-
-    # overlapping_matches is a list of the possibly-viable
-    # overlapping matches we found from checking a match
-    # we got from "matches".
-    overlapping_matches = []
+    # candidates is a heap of 3-tuples of:
+    #    (-end_pos, start_pos, match)
+    # The first element is always the next match in "reverse" order: the one
+    # ending furthest to the right, and, of those, the one starting furthest
+    # to the left.
+    pattern_match = pattern.match
 
-    result = []
-    match = None
+    candidates = []
+    # If the pattern prefers a zero-length match at some position, re.finditer
+    # yields that match, and then the nonzero-length match starting at the same
+    # position, if there is one.  Those extra matches can't be truncated.
+    extras = set()
+    last_start = -1
+    for forwards_match in pattern.finditer(string):
+        first, end = forwards_match.span()
+        if first == last_start:
+            extras.add(forwards_match)
+            candidates.append((-end, first, forwards_match))
+        for start in range(max(first, last_start + 1), max(first + 1, end)):
+            last_start = start
+            match = pattern_match(string, start)
+            if match:
+                candidates.append((-match.end(), start, match))
+
+    heapq.heapify(candidates)
 
     # We truncate each match at the start
     # of the previously yielded match.
@@ -596,105 +519,37 @@ def reversed_re_finditer(pattern, string):
     # to extend all the way to the end of the string.
     previous_match_start = len(string)
 
-    # cache some method lookups
-    pattern_match = pattern.match
-    append = overlapping_matches.append
+    while candidates:
+        negated_end, start, match = candidates[0]
 
-    while True:
-        if overlapping_matches:
-            # overlapping_matches contains the overlapping
-            # matches found *last* time around, before we
-            # yielded the most recent match.
-            #
-            # The thing is, some of these matches might overlap that match.
-            # But we only yield *non*-overlapping matches.  So we need to
-            # filter the matches in overlapping_matches accordingly.
-
-            truncated_matches = []
-            # (overlapping_matches will be set to truncated_matches in a few lines)
-            append = truncated_matches.append
-
-            for t in overlapping_matches:
-                end, negated_start, match = t
-                start = -negated_start
-                if start > previous_match_start:
-                    # This match starts *after* the previous match started.
-                    # All matches starting at this position are no longer
-                    # viable.  Throw away the match.
-                    continue
-                if end <= previous_match_start:
-                    # This match ends *before* the previous match started.
-                    # In other words, this match is still 100% viable.
-                    # Keep it, we don't need to change it at all.
-                    append(t)
-                    continue
+        if start > previous_match_start:
+            # This match starts *after* the previous match started.
+            # All matches starting at this position are no longer
+            # viable.  Throw away the match.
+            heapq.heappop(candidates)
+            continue
 
-                # This match starts before the previous match started,
-                # but ends after the previous match start.
-                # In other words, it overlaps the previous match.
-                #
-                # So this match is itself no longer viable.  But!
-                # There might be a *different* match starting at this
-                # position in the string.  So we do a fresh re.match here,
-                # stopping at the start of the previously yielded match.
-                # (That's the third parameter, "endpos".)
-
-                match = pattern_match(string, start, previous_match_start)
-                if match:
-                    append((match.end(), -start, match))
-
-            overlapping_matches = truncated_matches
-
-        if (not overlapping_matches) and matches:
-            # We don't currently have any pre-screened
-            # overlapping matches we can use.
-            #
-            # But we *do* have a match (or matches) found in forwards mode.
-            # Grab the next one that's still viable.
-
-            scan_for_overlapping_matches = False
-            while matches:
-                t = matches.pop()
-                end, negated_start, match = t
-                start = -negated_start
-                if end <= previous_match_start:
-                    assert start <= previous_match_start
-                    append(t)
-                    start += 1
-                    scan_for_overlapping_matches = True
-                    break
+        if -negated_end > previous_match_start:
+            # This match overlaps the previously yielded match, so it's
+            # no longer viable.  But!  There might be a *different* match
+            # starting at this position in the string.  So we do a fresh
+            # re.match here, stopping at the start of the previously yielded
+            # match.  (That's the third parameter, "endpos".)
+            match = (match not in extras) and pattern_match(string, start, previous_match_start)
+            if match:
+                heapq.heapreplace(candidates, (-match.end(), start, match))
+            else:
+                heapq.heappop(candidates)
+            continue
 
-            if scan_for_overlapping_matches:
-                # We scan every** position inside the match for an
-                # overlapping match.  All the matches we find go in
-                # overlapping_matches, then we sort it and yield
-                # the last one.
-                #
-                # ** We don't actually need to check the *first* position,
-                #    "start", because we already know what we'll find:
-                #    the match that we got from re.finditer() and
-                #    scanned for overlaps.
-                #
-                # As mentioned, the match we got from finditer
-                # is viable here, so add it to the list.
-
-                end = min(end, previous_match_start)
-                for pos in range(start, end):
-                    match = pattern_match(string, pos, previous_match_start)
-                    if match:
-                        # print(f"  found {match=}")
-                        append((match.end(), -pos, match))
-
-        if not overlapping_matches:
-            # matches and overlapping matches are both empty.
-            # We've exhausted the matches.  Stop iterating.
-            return
+        # A match with nonzero length stays in candidates:
+        # now it overlaps the match we're yielding (itself!),
+        # so next time we'll check for a zero-length match
+        # starting at the same position.
+        if -negated_end == start:
+            heapq.heappop(candidates)
 
-        # overlapping_matches is now guaranteed current and non-empty.
-        # We sort it so the rightmost match is last, and yield that.
-        overlapping_matches.sort()
-        match = overlapping_matches.pop()[2]
-        previous_match_start = match.start()
+        previous_match_start = start
         yield match
 
 _reversed_re_finditer = reversed_re_finditer
-- 
2.43.0


From c30b9c8857db9fd32f00bdb91e58f2766c5e28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 47/48] fix: clip_leading gave the wrong column when a tab was
 clipped after other characters

A tab clipped by a second call was expanded as if it started the line, so the
column was too large, and clipping the rest of the line did not restore it.
---
 big/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 6a0c795..5150fd2 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2785,10 +2785,11 @@ class LineInfo:
             return empty
         if s is None:
             s = l[:i]
+        # a tab's width depends on everything before it in the line,
+        # so measure all of leading, not just s
+        self.column_number -= len(self.detab(self.leading))
         self.leading += s
-        detabbed = self.detab(s)
-        length = len(detabbed)
-        self.column_number += length
+        self.column_number += len(self.detab(self.leading))
         return line
 
     def clip_trailing(self, line, s):
-- 
2.43.0


From 9d444d41746e439dad9bf4b80087082ff205ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 48/48] fix: split_text_with_code kept line breaks of an
 earlier code paragraph

Code, text and code again raised AssertionError or emitted stray line breaks.
---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 5150fd2..1f62545 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3869,6 +3869,9 @@ class _column_wrapper_splitter:
 
         if self.previous_paragraph == _code_paragraph:
             self.paragraph_break()
+            # the linebreaks after the last line of code
+            # are now part of the paragraph break
+            self.code.clear()
         self.state = self.state_text_line_start
         self.state(leading, word)
 
-- 
2.43.0

