From 4b239788e5a6c05c810a990cc2f58640d7007f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:49 +0000
Subject: [PATCH 01/67] fix: merge queued changes correctly when a later change
 starts before an earlier one

Changes.add() overwrote start before taking the minimum, so the merged
change region did not include a second change left of the first, and
removed/added were computed from the wrong overlap. The tree was then not
rebuilt at the earlier position.
---
 parce/treebuilderutil.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..7e0ac1e 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -87,21 +87,13 @@ class Changes:
             self.removed = removed
             self.added = added
             return
-        # determine the offset for removed and added
-        if start + removed < self.start:
-            offset = self.start - start - removed
-        elif start > self.start + self.added:
-            offset = start - self.start - self.added
-        else:
-            offset = 0
-        # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        # the end (in the current text) of the region both changes encompass
+        end = max(self.start + self.added, start + removed)
         # set the new values
-        self.start = min(self.start, start)
-        self.removed += removed + offset
-        self.added += added + offset
+        new_start = min(self.start, start)
+        self.removed += end - self.added - new_start
+        self.added = end - removed + added - new_start
+        self.start = new_start
 
     def has_changes(self):
         """Return True when there are actually changes."""
-- 
2.43.0


From 745f8243bb0f010a1b6ac0dbafe7aa7abc703aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:49 +0000
Subject: [PATCH 02/67] fix: do not drop tokens when a running build is
 restarted by a new change

When reusing the partially built tree, the last token group that remained
the same was removed from it, although the lexer is already positioned
after that group.
---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..138aa67 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From e8e0321dc1a7f9ebefa0f5b4673e61b86a253a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 03/67] fix: update cursors correctly when multiple changes are
 applied at once

The start and end of every change refer to the original text, but they were
compared with cursor positions already updated for earlier changes; and
a cursor that needed no more updates caused another one to be skipped.
---
 parce/document.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..4c54bd1 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,12 +81,10 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
-        for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
+        # changes refer to the original text, so start with the last change
+        for start, end, text in reversed(changes):
+            for c in self._cursors:
+                if c.pos > start:
                     if end >= c.pos:
                         c.pos = start
                     else:
@@ -96,8 +94,6 @@ class AbstractDocument(mutablestring.AbstractMutableString):
                         c.end = start + len(text)
                     else:
                         c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From 0fbef83576dba4e4fcc30330fd3bde184d06084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 04/67] fix: discard the pending changes when they overlap

When applying overlapping changes raised the RuntimeError, the changes were
kept, and every later change to the text failed with the same error.
---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 0854e7b9d1b45ee19d77b4437bc044edce0282a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 05/67] fix: emit undo_available(False) and
 redo_available(False) on undo and redo

The stack was popped before its state was recorded, so the event was not
emitted when undo() or redo() used the last item.
---
 parce/document.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index 4c54bd1..23f4fd4 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -370,10 +370,11 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
-            with switch, self:
-                for start, end, text in changes:
-                    self[start:end] = text
+            with self._check_undo_state():
+                changes, modified = stack.pop()
+                with switch, self:
+                    for start, end, text in changes:
+                        self[start:end] = text
             self.modified = modified
 
     @contextlib.contextmanager
@@ -383,6 +384,10 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         Emits "undo_available" and "redo_available" when they change.
 
         """
+        if self._in_undo or self._in_redo:
+            # the state is already being checked in _apply_undo_redo()
+            yield
+            return
         can_undo = self.can_undo()
         can_redo = self.can_redo()
         try:
-- 
2.43.0


From 089b96d44c8497352fd6e41e28c14334f8cf9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:00 +0000
Subject: [PATCH 06/67] fix: do not raise KeyError when invalidating a node
 without cached result

A context has no cached transform result when there is no transform method
for its lexicon, or when the tree is updated again before it was transformed.
---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..be9d4de 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -397,7 +397,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From eea01a393924cdd996213594bef952173f6dd2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:00 +0000
Subject: [PATCH 07/67] fix: handle lexicons without transform method correctly
 in transform_text

An untransformed context lost its first tokens and was popped off one time
too many when it ended; and when the text ended inside a lexicon without
transform method an IndexError was raised.
---
 parce/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index be9d4de..980192b 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,7 +214,7 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
             Returns the tree and the next event (if any), with adapted pop
@@ -225,11 +225,12 @@ class Transformer(util.Observable):
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
@@ -280,7 +281,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +289,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From fb1b4b19b040eeb399a723f514fb8a4620988f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:52 +0000
Subject: [PATCH 08/67] fix: return no range when there are no tokens between
 start and end

When no token lies in the requested range and the tokens next to it are in
different contexts, the start came after the end and tokens outside
the range were yielded.
---
 parce/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..9800164 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -1004,6 +1004,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From 2c90f70da11fa97ed5237b5e9d67c509c82a49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:52 +0000
Subject: [PATCH 09/67] fix: format the correct tokens when a range is
 formatted with multiple themes

After descending in a context the index in the slice was used as index in
the full parent context.
---
 parce/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..5c3e394 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -202,7 +202,7 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
+                    n = nodes = context[slice_]
                     stack = []
                     i = 0
                     while True:
@@ -217,9 +217,9 @@ class AbstractFormatter:
                             yield m
                         else:
                             if stack:
-                                n = n.parent
-                                check_lang(n.lexicon.language)
                                 i = stack.pop() + 1
+                                check_lang(n.parent.lexicon.language)
+                                n = n.parent if stack else nodes # slice we started with
                             else:
                                 break
 
-- 
2.43.0


From ed4b5230dbf2d6eac2ab001877a6d4d180b671ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:46 +0000
Subject: [PATCH 10/67] fix: keep the lock in object_locker until the last
 thread released it

The lock was forgotten when the thread that created it released it, while
other threads could be waiting for that lock; then a new thread got another
lock for the same object, and could run the same cached method concurrently
(e.g. creating the same derived lexicon twice).
---
 parce/util.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..aee4475 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -495,20 +495,20 @@ def object_locker():
     locker = {}
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
-            try:
-                return locker[obj]
-            except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+            # a list with the lock and the number of threads using it
+            item = locker.setdefault(obj, [threading.Lock(), 0])
+            item[1] += 1
+        try:
+            with item[0]:
+                yield
+        finally:
+            with locker_lock:
+                item[1] -= 1
+                if not item[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From 95fcfd23f30c87b717ce295b241223bb438ed36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:46 +0000
Subject: [PATCH 11/67] fix: recognize the UTF-32-LE byte order mark

It starts with the UTF-16-LE byte order mark, which was tried first.
---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index aee4475..94985f2 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -724,10 +724,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'), # starts with BOM_UTF16_LE
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From e3c23fb1acee8ad1a0277d32b2bff90921208de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:46 +0000
Subject: [PATCH 12/67] fix: consult the fallback when a Registry is empty

Registry.find() stopped at an empty registry without trying its fallback.
---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From 4945e731dce0489191ac34e0a1338066b2531d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:29 +0000
Subject: [PATCH 13/67] fix: allow connecting and disconnecting callbacks while
 an event is emitted

Observable.emit() iterated over the live list, so a callback that connected
or disconnected a callback caused others to be skipped or called twice, and
the wrong callbacks to be removed after a once=True callback. Also remove a
once=True callback before it is called, so it never runs a second time.
---
 parce/util.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 94985f2..a74a982 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -378,20 +378,21 @@ class Observable:
             slots = self._callbacks[event]
         except KeyError:
             return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        # use a copy, a callback may connect or disconnect callbacks
+        for observer in slots[:]:
+            if observer not in self._callbacks.get(event, ()):
+                continue    # disconnected by another callback
+            once = observer.once
+            if once:
+                self.disconnect(event, observer.func)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
-            if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+            if observer.once and not once:
+                # the method doesn't exist anymore
+                self.disconnect(event, observer.func)
         return s
 
 
-- 
2.43.0


From 1f6d7ec8281e3657c827d45c040b0d6fdc7465cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 14/67] fix: do not hang or skip text on default targets that
 lead nowhere

A pattern matching the empty string or a default target that could not pop
off the root lexicon, or that was pushed and popped again at the end
of the text, was followed forever. And two different default targets
that replace the current lexicon at the same position were mistaken for a
circular target, causing a character to be skipped.
---
 parce/lexer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..3af229a 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,9 +156,12 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
-                        state = (pos, len(lexicons), len(target.push))
+                        state = (pos, len(lexicons), target.push)
                         if state in circular:
-                            if target.push and pos < len(text):
+                            if target.push or not target.pop:
+                                # can't get away from here without advancing
+                                if pos >= len(text):
+                                    return
                                 pos += 1
                             circular.clear()
                         else:
-- 
2.43.0


From 13a5a2c20d92510c15b29704fe2d3eb29cc697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:32 +0000
Subject: [PATCH 15/67] fix: change the root lexicon when it is derived from
 the same lexicon

A derived lexicon compares equal to other lexicons derived from the same
lexicon, so the lexicon of the root context was not replaced and later
updates used the old lexicon.
---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 138aa67..7005014 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -386,7 +386,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From eab6c4ade1b6aac11d326deb7d5af88debdf9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:18 +0000
Subject: [PATCH 16/67] fix: report the correct updated range when the text
 changes during a build

The end of the updated range was not adjusted for changes that were
handled while already building, so it could point past the end of the text
or leave changed tokens out.
---
 parce/treebuilder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 7005014..ffdfb9b 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -164,6 +164,7 @@ class TreeBuilder(util.Observable):
         self.root = Context(root_lexicon, None)
         self.busy = False
         self.changes = []
+        self._text_length = 0
 
     def tree(self, text):
         """Convenience method to build a tree and return the root node."""
@@ -524,6 +525,8 @@ class TreeBuilder(util.Observable):
         c = Changes()
         while self.changes:
             c.add(*self.changes.pop(0))
+        if c.has_changes():
+            self._text_length = len(c.text)
         return c
 
     def start_processing(self):
@@ -556,7 +559,8 @@ class TreeBuilder(util.Observable):
 
         """
         self.process_started()
-        start = end = -1
+        start = -1
+        tail = -1           # the number of characters after the end
         lexicons = False    # no change
         self._lock.acquire()
         c = self.get_changes()
@@ -568,15 +572,17 @@ class TreeBuilder(util.Observable):
             self.emit("replace")
             r = self.replace_tree(result)
             start = r.start if start == -1 else min (start, r.start)
-            end = r.end if end == -1 else max(c.new_position(end), r.end)
+            # the text may also have changed while building
+            t = self._text_length - r.end
+            tail = t if tail == -1 else min(tail, t)
             if r.lexicons is not None:
                 lexicons = r.lexicons
             self._lock.acquire()
             c = self.get_changes()
         if start != -1:
             self.start = start
-        if end != -1:
-            self.end = end
+        if tail != -1:
+            self.end = self._text_length - tail
         if lexicons is not False:
             self.lexicons = lexicons
         self.busy = False
-- 
2.43.0


From b4cced236073fd7abf59f930f515d35926800136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 17/67] fix: return an up-to-date tree and transform from a
 busy Worker

When an update arrived while the previous process was still running its
callbacks or the transform, a second background thread was started that
ran concurrently with the first one: the first thread then marked the
outdated result as ready, and both threads altered the same transform cache.

Now BackgroundWorker runs one process at a time, and a process only changes
the state when no newer process was started. Callbacks are only called when
the result they wait for is up to date.
---
 parce/transform.py |   2 +-
 parce/work.py      | 121 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 101 insertions(+), 22 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 980192b..fa823fc 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -373,7 +373,7 @@ class Transformer(util.Observable):
         if not self._interrupt[tree]:
             self._cache[tree] = result
             self.emit("updated", tree, result)
-        del self._interrupt[tree]
+        self._interrupt.pop(tree, None)
         yield "done"
         self.emit("finished", tree)
 
diff --git a/parce/work.py b/parce/work.py
index cb2be97..c55282f 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -99,6 +99,9 @@ class Worker(util.Observable):
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._request = 0       # incremented each time a process is started
+        self._tree_ready = util.Observable()      # for callbacks
+        self._transform_ready = util.Observable() # for callbacks
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -119,8 +122,8 @@ class Worker(util.Observable):
         """
         if transformer is not self._transformer:
             with self._transform_lock:
-                self._transformer = transformer
                 with self._condition:
+                    self._transformer = transformer
                     start = self._transform_state & REPLACE == 0
             if start:
                 self.start()
@@ -151,8 +154,9 @@ class Worker(util.Observable):
 
         """
         with self._condition:
+            self._request += 1
             self._tree_state = BUILD
-            if self._transformer and self._transform_state == IDLE:
+            if self._transformer:
                 self._transform_state = BUILD
         self.run_process()
 
@@ -172,20 +176,37 @@ class Worker(util.Observable):
     def process(self):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
+        with c:
+            request = self._request
+
+        def set_state(tree=None, transform=None):
+            """Set the state, return False if a newer process was started.
+
+            In that case the state is left alone, that process will set it.
+
+            """
+            with c:
+                if request != self._request:
+                    return False
+                if tree is not None:
+                    self._tree_state = tree
+                if transform is not None:
+                    self._transform_state = transform
+                c.notify_all()
+                return True
 
         try:
             ## run the treebuilder
             self.start_build()
             for stage in self._builder.process():
                 yield "tree_" + stage
-                state = _STATES.get(stage)
-                if state:
-                    with c:
-                        self._tree_state = state
+                set_state(_STATES.get(stage))
             self.finish_build()
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if not set_state(IDLE):
+                    return  # the newer process also runs the transformer
+                ready, self._tree_ready = self._tree_ready, util.Observable()
+            ready.emit("ready", self)
 
             ## run the transformer
             self._transform_lock.acquire()
@@ -195,23 +216,25 @@ class Worker(util.Observable):
                     self._transform_lock.release()
                     for stage in t.process(self._builder.root):
                         yield "transform_" + stage
-                        state = _STATES.get(stage)
-                        if state is not None:
-                            with c:
-                                self._transform_state = state
+                        with c:
+                            if stage != "done" or t is self._transformer:
+                                set_state(transform=_STATES.get(stage))
                     self._transform_lock.acquire()
                     # if the transformer was replaced while running, start again
                     t, old = self._transformer, t
                 self._transform_lock.release()
-                self.finish_transform()
+                if set_state():
+                    self.finish_transform()
             else:
                 self._transform_lock.release()
+            with c:
+                if not set_state(IDLE, IDLE):
+                    return
+                ready, self._transform_ready = self._transform_ready, util.Observable()
+            ready.emit("ready", self)
 
         finally:
-            with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+            set_state(IDLE, IDLE)
 
     def wait_build(self):
         """Wait for the build job to be completed.
@@ -256,7 +279,7 @@ class Worker(util.Observable):
         with self._condition:
             if self._tree_state & REPLACE:
                 if callback:
-                    self.connect("tree_finished", callback, True, True)
+                    self._tree_ready.connect("ready", callback, True)
                 if not wait:
                     return
                 self.wait_build()
@@ -280,7 +303,7 @@ class Worker(util.Observable):
             with self._condition:
                 if self._transform_state & REPLACE:
                     if callback:
-                        self.connect("transform_finished", callback, True, True)
+                        self._transform_ready.connect("ready", callback, True)
                     if not wait:
                         return
                     self.wait_transform()
@@ -332,10 +355,66 @@ class Worker(util.Observable):
 
 
 class BackgroundWorker(Worker):
-    """A Worker implementation that does the work in a background thread."""
+    """A Worker implementation that does the work in a background thread.
+
+    There is only one background thread at a time. When the update process is
+    started while the thread is still busy with the callbacks or the transform
+    of the previous update, the process is run again when it is finished.
+
+    """
+    def __init__(self, treebuilder, transformer=None):
+        super().__init__(treebuilder, transformer)
+        self._thread = None
+        self._run_again = False
+
+    def start(self):
+        """Start the update process."""
+        with self._condition:
+            super().start()
+
     def run_process(self):
         """Run the update process in a background thread."""
-        threading.Thread(target=super().run_process).start()
+        if self._thread:
+            self._run_again = True
+            self.slot_replace()     # interrupt the transformer
+        else:
+            self._start_thread()
+
+    def _start_thread(self):
+        """Start the background thread."""
+        self._thread = threading.Thread(target=self._run)
+        self._thread.start()
+
+    def _run(self):
+        """Run the update process (in the background thread)."""
+        try:
+            super().run_process()
+        finally:
+            with self._condition:
+                self._thread = None
+                if self._run_again:
+                    self._run_again = False
+                    self._start_thread()
+
+    def wait_build(self):
+        """Wait for the build job to be completed.
+
+        Immediately returns if there is no build job active, or when called
+        from the background thread itself.
+
+        """
+        if threading.current_thread() is not self._thread:
+            super().wait_build()
+
+    def wait_transform(self):
+        """Wait for the transform job to be completed.
+
+        Immediately returns if there is no transform job active, or when called
+        from the background thread itself.
+
+        """
+        if threading.current_thread() is not self._thread:
+            super().wait_transform()
 
 
 class WorkerDocumentMixin:
-- 
2.43.0


From 182066c353f26cfcb9fc5695eaf6cc127bd24165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:50 +0000
Subject: [PATCH 18/67] fix: invalidate cached results of transformers that are
 set again later

When the text was changed while another (or no) transformer was set, a
formerly used transformer kept outdated results in its cache.
---
 parce/work.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index c55282f..aecb3fa 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -94,6 +94,7 @@ class Worker(util.Observable):
         super().__init__()
         self._builder = treebuilder
         self._transformer = transformer
+        self._transformers = weakref.WeakSet((transformer,) if transformer else ())
 
         self._condition = threading.Condition()
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
@@ -124,6 +125,8 @@ class Worker(util.Observable):
             with self._transform_lock:
                 with self._condition:
                     self._transformer = transformer
+                    if transformer:
+                        self._transformers.add(transformer)
                     start = self._transform_state & REPLACE == 0
             if start:
                 self.start()
@@ -312,11 +315,13 @@ class Worker(util.Observable):
     def slot_invalidate(self, context):
         """Called when TreeBuilder emits ``("invalidate", context)``.
 
-        Clears the node and its parents from the transform cache.
+        Clears the node and its parents from the transform cache, also of
+        transformers that were used before and may be set again.
 
         """
-        if self._transformer:
-            self._transformer.invalidate_node(context)
+        with self._condition:
+            for transformer in self._transformers:
+                transformer.invalidate_node(context)
 
     def slot_replace(self):
         """Called when TreeBuilder emits ``"replace"``.
-- 
2.43.0


From 391bf452b28910d144341aa3e661e5cd732d2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:07 +0000
Subject: [PATCH 19/67] fix: determine the current indent of blank lines
 correctly

The indent of a line with only whitespace was regarded as empty, so the
new indent was added to it every time instead of replacing it.
---
 parce/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..69e06f9 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,9 +302,9 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text) - len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From d5f4b4237fb88bad1eb011084fc23c2fc85ace12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 20/67] fix: do not hang when a pattern matches the empty
 string in a lexicon with default target

---
 parce/lexicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..a409ca8 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -424,8 +424,10 @@ class Lexicon:
                     m = match(text, pos)
                     if m:
                         yield token(m)
+                    if m and m.end() > pos:
                         pos = m.end()
                     else:
+                        # no match, or an empty match that had no target
                         if pos < len(text):
                             yield pos, "", None, None, default_target
                         break
-- 
2.43.0


From bc36eeec3002a10a23e507389b0796fe0a487328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:52 +0000
Subject: [PATCH 21/67] fix: transform when a transformer is set while the
 process ends without one

When the transformer was removed while the process was running, and another
was set just before the process ended, the transform state was still busy, so
no new process was started and the new transformer was never run.
---
 parce/work.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parce/work.py b/parce/work.py
index aecb3fa..5f28460 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -225,10 +225,13 @@ class Worker(util.Observable):
                     self._transform_lock.acquire()
                     # if the transformer was replaced while running, start again
                     t, old = self._transformer, t
+                if not t:
+                    set_state(transform=DONE)   # let a new transformer start
                 self._transform_lock.release()
                 if set_state():
                     self.finish_transform()
             else:
+                set_state(transform=DONE)       # let a new transformer start
                 self._transform_lock.release()
             with c:
                 if not set_state(IDLE, IDLE):
-- 
2.43.0


From 6f52a10820cfc6ca2bb954664ca903db6cd6ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:22 +0000
Subject: [PATCH 22/67] fix: also call the callback when the document is empty

An empty document is false, so the callback given with get_root() or
get_transform() was not called when the text was empty at that moment.
---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 5f28460..c4d537c 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -583,7 +583,7 @@ class WorkerDocumentMixin:
         selfref = weakref.ref(self)
         def cb(worker):
             self = selfref()
-            if self:
+            if self is not None:
                 callback(self)
         return cb
 
-- 
2.43.0


From 988805de9d9952b324bdbbf7241ad4bf5f0312c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:55 +0000
Subject: [PATCH 23/67] fix: do not loop forever when replacing the empty
 string

---
 parce/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index 23f4fd4..3880dd1 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -218,7 +218,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
             pos = text.find(old)
             while pos >= 0:
                 self[start+pos:start+pos+length] = new
-                pos = text.find(old, pos + length)
+                pos = text.find(old, pos + max(length, 1))
                 count -= 1
                 if count == 0:
                     break
-- 
2.43.0


From 0a1e0c7e827acee33144b315963411a249e9e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:17 +0000
Subject: [PATCH 24/67] fix: do not use str.find for patterns in a lexicon with
 the VERBOSE flag

---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index a409ca8..31e402c 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0


From 760e7a9be51f18d020063272c3d805cf4576e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:21 +0000
Subject: [PATCH 25/67] fix: yield all lexicons as variation of a target with a
 dynamic index

---
 parce/ruleitem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index c295554..817eff7 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -268,7 +268,10 @@ class target(RuleItem):
             yield value
         else:
             index, arg = value
-            yield self._lexicons[index]
+            if isinstance(index, Item):
+                yield from self._lexicons
+            else:
+                yield self._lexicons[index]
 
     def _repr_args(self):
         return (self._value, *self._lexicons)
-- 
2.43.0


From 976cfafe94d8e3e48200f587b1c59ef7585d2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:23 +0000
Subject: [PATCH 26/67] fix: also yield the variations of rules with the skip
 action

---
 parce/ruleitem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index 817eff7..cd0f1f8 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -573,12 +573,14 @@ def variations(rule):
     items = tuple(rule)
     for i, item in enumerate(items):
         if isinstance(item, Item):
-            prefix = items[:i]
-            for suffix in variations(items[i+1:]):
-                for v in item.variations():
-                    for l in variations(util.unroll(v)):
-                        yield prefix + l + suffix
-            break
+            item_variations = list(item.variations())
+            if item_variations:     # an item without variations is kept as is
+                prefix = items[:i]
+                for suffix in variations(items[i+1:]):
+                    for v in item_variations:
+                        for l in variations(util.unroll(v)):
+                            yield prefix + l + suffix
+                break
     else:
         yield items
 
-- 
2.43.0


From 98ef448a74d2153cebaa5f39ad205f2ed88e8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 27/67] fix: css: reading a quoted string raised an exception

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From ca60c143e8a9330c6c26dfe22b79d27229864492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 28/67] fix: css: a zero in rgb() or rgba() was skipped

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index faa606e..83e3235 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1279,7 +1279,7 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
         if r != -1: r = self.get_number_value(r, 255)
         g = next(values, -1)
-- 
2.43.0


From f50853dc041cbab174ae5a94e195da9f38041428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 29/67] fix: css: the color transparent was not recognized

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 83e3235..5b97678 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1081,7 +1081,7 @@ class CssTransform(Transform):
             funcargs = items[-1].obj
             return self.get_css_function_call(text, funcargs)
         from .lang.css_words import CSS3_NAMED_COLORS
-        if action is a.Literal.Color or text in CSS3_NAMED_COLORS:
+        if text == "transparent" or text in CSS3_NAMED_COLORS:
             color = self.get_named_color(text)
             return Value(color=color, text=text)
         return Value(text=text)
-- 
2.43.0


From 44ec65f47e61052e8a83200ac3c21121ca11652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 30/67] fix: css: rules after a @media, @supports or @document
 block were lost

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..5138ede 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -228,7 +228,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule contexts
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From 9b8d73e09a2722002eddd851e9d9ff39ee800260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 31/67] fix: css: the most specific of more !important values
 should win

---
 parce/css.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 5b97678..bab5923 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -403,10 +403,9 @@ class Style:
                 if value[-1] == '!important':
                     value = value[:-1]
                     important = True
-                if key not in result:
-                    result[key] = value
-                elif important and key not in important_properties:
+                if key not in result or (important and key not in important_properties):
                     result[key] = value
+                if important:
                     important_properties.add(key)
         return result
 
-- 
2.43.0


From ac3bebf84a75c1f1ea9843bae2396e4bf5e3a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 32/67] fix: css: a property without value made
 Style.properties() fail

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index bab5923..fa8b71d 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -400,7 +400,7 @@ class Style:
         for rule in self.rules:
             for key, value in rule.properties.items():
                 important = False
-                if value[-1] == '!important':
+                if value and value[-1] == '!important':
                     value = value[:-1]
                     important = True
                 if key not in result or (important and key not in important_properties):
-- 
2.43.0


From 31f6877baff60c242884540707eeca1e1b772ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 33/67] fix: css: a rule without selectors made
 StyleSheet.style fail

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index fa8b71d..36ceebf 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1380,7 +1380,7 @@ def calculate_specificity(prelude):
                 clss += total('attribute_selector', 'class_selector', 'pseudo_class')
                 elts += total('element_selector', 'pseudo_element')
         specificities.append((ids, clss, elts))
-    return max(specificities)
+    return max(specificities, default=(0, 0, 0))
 
 
 def color2hex(color):
-- 
2.43.0


From b9ed5a729f33a55a2128e6392e22980564480aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 34/67] fix: css: an !important declaration was overridden by a
 later one in the same rule

---
 parce/css.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/css.py b/parce/css.py
index 36ceebf..4ffb477 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -933,6 +933,8 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
+                if '!important' in d.get(prop, ())[-1:] and '!important' not in values[-1:]:
+                    continue
                 d[prop] = values
         return d
 
-- 
2.43.0


From 6f243bfe7d5ffe6016e9c6a2d3de503457219098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 35/67] fix: css: attribute selectors with an empty value

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 4ffb477..9ff918f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -625,7 +625,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -639,13 +639,13 @@ class AbstractElement:
                     if text != value and not value.startswith(text + "-"):
                         return False
                 elif operator == "^=":
-                    if not value.startswith(text):
+                    if not text or not value.startswith(text):
                         return False
                 elif operator == "$=":
-                    if not value.endswith(text):
+                    if not text or not value.endswith(text):
                         return False
                 elif operator == "*=":
-                    if text not in value:
+                    if not text or text not in value:
                         return False
 
         # pseudo_class?
@@ -994,7 +994,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 3d037575f136744becf7585d02f23496b898f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 36/67] fix: css: AbstractElement.get_child_count() lacked the
 self argument

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 9ff918f..fff132b 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -484,7 +484,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
-- 
2.43.0


From 380f89b51c1f51378213d8f46c60a845de2a99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:05 +0000
Subject: [PATCH 37/67] fix: css: try all ancestors and siblings when matching
 combinators

---
 parce/css.py | 61 ++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index fff132b..03e1aa2 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -561,46 +561,31 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
+        if len(selectors) < 3:
+            return True
+        operator = selectors[-2]
+        selectors = selectors[:-2]
+        if operator == ">":
+            # parent should match
+            element = self.get_parent()
+            return element is not None and element.match_selectors(selectors)
+        elif operator == " ":
+            # an ancestor should match
+            element = self.get_parent()
+            while element is not None:
+                if element.match_selectors(selectors):
+                    return True
                 element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
-        return True
+            return False
+        elif operator == "+":
+            # immediate sibling should match
+            element = self.previous_sibling()
+            return element is not None and element.match_selectors(selectors)
+        else: # operator == "~":
+            # a sibling should match
+            return any(e.match_selectors(selectors) for e in self.previous_siblings())
 
     def match_selector(self, selector):
         """Match with a single CSS selector dictionary.
-- 
2.43.0


From 281c58715035132087590a0053b69d1c7203678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 38/67] fix: css: @import failed, and did not resolve nested
 file names

---
 parce/css.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 03e1aa2..c76246c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -222,9 +222,9 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        filenames = {filename}
+        imported_filenames = []
 
-        def get_import_rules(values):
+        def get_import_rules(values, filenames):
             """Yield rules from an @import at-rule.
 
             If the @import rule has a media query after the filename/url,
@@ -232,24 +232,23 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filenames[-1]), fname))
                     # avoid circular @import references
                     if fname not in filenames:
-                        filenames.add(fname)
                         icss = cls.load_from_file(fname)
+                        rules = get_rules(icss, filenames + (fname,))
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
-                            yield Condition("import", values, s)
+                            yield Condition("import", values, cls(rules, fname))
                         else:
-                            self._imported_filenames.append(fname)
-                            yield from get_rules(icss)
+                            imported_filenames.append(fname)
+                            yield from rules
                     return
 
-        def get_rules(css):
+        def get_rules(css, filenames):
             """Get all CSS rules from the CSS structure, either as Rule or
             as Condition.
 
@@ -264,7 +263,7 @@ class StyleSheet:
                     # @-rule
                     if rule.keyword == "import":
                         if allow_import:
-                            rules.extend(get_import_rules(rule.contents))
+                            rules.extend(get_import_rules(rule.contents, filenames))
                         continue
                     elif isinstance(rule.block, list):
                         # nested @-rule
@@ -272,7 +271,9 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        sheet = cls(get_rules(css, (filename and os.path.normpath(filename),)), filename)
+        sheet._imported_filenames = imported_filenames
+        return sheet
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From f623e5a84b43a5799edfd1fbac4fef4b4a34efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:18 +0000
Subject: [PATCH 39/67] fix: theme: adding a format with a font size keyword
 kept the other format's unit

---
 parce/theme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..e18ee70 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -443,6 +443,7 @@ class TextFormat:
                           "large", "x-large", "xx-large", "xxx-large",
                           "larger", "smaller"):
                 self.font_size = v.text
+                self.font_size_unit = None
                 return
             elif v.number is not None:
                 self.font_size = v.number
-- 
2.43.0


From ce576b87018d7be3b9d41990895f2ded4182c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:57 +0000
Subject: [PATCH 40/67] fix: keep the byte-order mark when saving a document
 that was loaded with one

---
 parce/docio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..7d51dd4 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -299,9 +299,12 @@ def decode_data(
     actual_read_enc = read_enc or doc_enc or encoding or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING
 
     # If no encoding was specified, remember the encoding set in the document
-    # or determined via the BOM.
+    # or determined via the BOM. Remember the variant that writes a BOM again
+    # when saving, otherwise the encoding could not be determined anymore.
     if not encoding:
         encoding = doc_enc or read_enc
+        if encoding and not doc_enc and encoding.startswith(('utf_16', 'utf_32')):
+            encoding = encoding[:6].replace('_', '-')
 
     # now let Python decode the text
     text = io.TextIOWrapper(io.BytesIO(data), actual_read_enc, errors, newline).read()
-- 
2.43.0


From 8ba5cd48397d4b2f37834a6d599fd5014d6ebc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:57 +0000
Subject: [PATCH 41/67] fix: recognize an encoding mentioned as coding: name

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index 7d51dd4..7b07d33 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
         if m:
             return m.group(1)
 
-- 
2.43.0


From 0f88213dcaa5b89b6ec8adc10103e4523e6fe56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:26 +0000
Subject: [PATCH 42/67] fix: let auto_indent() determine the same indent as
 indent() does

More indents or dedents and indents in one line, and lines that may not
be indented or have a preferred indent were not handled correctly.
---
 parce/indent.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index 69e06f9..438528b 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -210,22 +210,24 @@ class AbstractIndenter:
             else:
                 # search backwards
                 depth = info.dedents_start
+                added = ''  # indents opened in lines we may not take the indent of
                 while not b.is_first():
                     b = b.previous_block()
                     info = self.indent_info(b)
-                    if info.allow_indent:
-                        if 0 <= depth < len(info.indents):
-                            # we found the indent to use
-                            index = len(info.indents) - depth - 1
-                            new_indent = info.indent + (info.indents[index] or self.indent_string)
-                            break
+                    if depth < len(info.indents):
+                        # these indents of this line are in effect
+                        indents = info.indents[:len(info.indents) - depth]
+                        added = ''.join(i or self.indent_string for i in indents) + added
+                        depth = 0
+                    else:
                         depth -= len(info.indents)
-                        depth += info.dedents_end
-                        if depth == 0:
-                            # same indent as this line
-                            new_indent = info.indent
-                            break
-                        depth += info.dedents_start
+                    depth += info.dedents_end
+                    if (depth == 0 and info.allow_indent and info.prefer_indent is None
+                            and (self.indent_blank_lines or not info.is_blank)):
+                        # we found the indent to use
+                        new_indent = info.indent + added
+                        break
+                    depth += info.dedents_start
             if new_indent != current_indent:
                 with cursor.document() as d:
                     d[block.pos:block.pos + len(current_indent)] = new_indent
-- 
2.43.0


From edaf4219e8e881570922f6ddcb2320fcb99f9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 43/67] fix: theme: a property value with a comma raised an
 exception

---
 parce/theme.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index e18ee70..1dcfe53 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,8 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # leave out delimiters, e.g. the commas in a list of font families
+            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
 
     def __bool__(self):
         """Return True if at least one property is set."""
-- 
2.43.0


From 1353747ee6a3e29058af417b74b377277a6c6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:51 +0000
Subject: [PATCH 44/67] fix: html: escape the base format in the style
 attribute

---
 parce/out/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index 8cf5993..ae183e1 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -82,7 +82,7 @@ class HtmlMixin:
         """
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
-            baseformat = self.baseformat() or "",
+            baseformat = attrescape(self.baseformat() or ""),
             html = self.html(cursor))
 
 
-- 
2.43.0


From 0f5090e98faeb7e27c85453bf1d862813a0eb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:53 +0000
Subject: [PATCH 45/67] fix: html: a newline at the start of the text was not
 shown by full_html()

---
 parce/out/html.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index ae183e1..9880c60 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -80,10 +80,14 @@ class HtmlMixin:
         when writing the HTML to an output device.
 
         """
+        html = self.html(cursor)
+        if html.startswith('\n'):
+            # a newline directly after <pre> is ignored by HTML
+            html = '\n' + html
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
             baseformat = attrescape(self.baseformat() or ""),
-            html = self.html(cursor))
+            html = html)
 
 
 class HtmlFormatter(HtmlMixin, parce.formatter.Formatter):
-- 
2.43.0


From bd5628a1508b6866a3e561c17cdff7f99fe32135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:43 +0000
Subject: [PATCH 46/67] fix: theme: a font-style property without value raised
 an exception

---
 parce/theme.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 1dcfe53..556cd57 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -258,7 +258,9 @@ class TextFormat:
     def __init__(self, properties):
         for prop, values in properties.items():
             # leave out delimiters, e.g. the commas in a list of font families
-            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
+            values = [v for v in values if isinstance(v, css.Value)]
+            if values:
+                self._dispatch(prop, values)
 
     def __bool__(self):
         """Return True if at least one property is set."""
-- 
2.43.0


From 63ec35aee579255d64f3dfdb01b9ba99faa0168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:44 +0000
Subject: [PATCH 47/67] fix: theme: adding an oblique format kept the angle of
 the other format

---
 parce/theme.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/theme.py b/parce/theme.py
index 556cd57..7f3f434 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -472,6 +472,8 @@ class TextFormat:
                 return
             elif v.text == "oblique":
                 self.font_style = v.text
+                self.font_style_angle = None
+                self.font_style_angle_unit = None
                 if n and n.number is not None:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
-- 
2.43.0


From 28f530c62b24ec27c7a703cbdead672673b74853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:35 +0000
Subject: [PATCH 48/67] fix: theme: write the percent sign of font-stretch

---
 parce/theme.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 7f3f434..27f24d2 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -349,7 +349,9 @@ class TextFormat:
         elif self.font_style:
             yield "font-style", self.font_style
         if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+            # a number is a percentage
+            unit = "" if isinstance(self.font_stretch, str) else "%"
+            yield "font-stretch", "{}{}".format(self.font_stretch, unit)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
-- 
2.43.0


From e7abebf317ab6224a11c78771177620c043e1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:29 +0000
Subject: [PATCH 49/67] fix: let other threads not see a StandardAction before
 it has its name and parent

---
 parce/standardaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/standardaction.py b/parce/standardaction.py
index a9ee5d6..99a326a 100644
--- a/parce/standardaction.py
+++ b/parce/standardaction.py
@@ -109,9 +109,11 @@ class StandardAction:
             try:
                 return d[name]
             except KeyError:
-                new = d[name] = object.__new__(cls)
+                new = object.__new__(cls)
                 new._name = name
                 new._parent = parent
+                # other threads may access it without lock as soon as it is stored
+                d[name] = new
                 return new
 
     def __getattr__(self, name):
-- 
2.43.0


From f67df38bbd690181321d8046708f1069bc2f9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 50/67] fix: Document.token() returns the last token when it
 ends at the position

---
 parce/work.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index c4d537c..91447eb 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -561,8 +561,14 @@ class WorkerDocumentMixin:
         different block. Returns None if there are no tokens in the block.
 
         """
-        token = self.get_root(True).find_token(pos)
-        if token:
+        root = self.get_root(True)
+        token = root.find_token(pos)
+        if not token:
+            # nothing to the right, see if the last token touches pos
+            token = root.last_token()
+            if token and token.end == pos:
+                return token
+        else:
             if token.pos <= pos:
                 return token
             # token is to the right, see if left token touches pos
-- 
2.43.0


From f4faab15f17073f02378d4288d9caf89f042ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 51/67] fix: JsonTransform keeps all digits of large integers

---
 parce/lang/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index f916310..d9b2cd3 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -110,9 +110,12 @@ class JsonTransform(Transform):
         for i in items:
             if i.is_token:
                 if i.action is Number:
-                    n = float(i.text)
-                    if n.is_integer():
-                        n = int(n)
+                    try:
+                        n = int(i.text)
+                    except ValueError:
+                        n = float(i.text)
+                        if n.is_integer():
+                            n = int(n)
                     yield n
                 elif i.action is Name.Constant:
                     yield JSON_CONSTANTS[i.text]
-- 
2.43.0


From a34de2f5c756035e8f61cc0b927fc93bec36bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 52/67] fix: JsonTransform combines escaped surrogate pairs

---
 parce/lang/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index d9b2cd3..7f49435 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -149,4 +149,7 @@ class JsonTransform(Transform):
                         yield JSON_ESCAPE_CHARS[t.text[1]]
                 else:
                     yield t.text
-        return ''.join(gen())
+        # an escaped character outside the BMP is written as a surrogate pair
+        return re.sub('[\ud800-\udbff][\udc00-\udfff]',
+            lambda m: m.group().encode('utf-16', 'surrogatepass').decode('utf-16'),
+            ''.join(gen()))
-- 
2.43.0


From 2cd64767a59d16cfc1d81765ad67b6fc6d425c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 53/67] fix: IniTransform interprets escaped control characters

---
 parce/lang/ini.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 392b73c..abd6f0d 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -73,6 +73,16 @@ class Ini(Language):
         yield from cls.comment_common()
 
 
+INI_ESCAPE_CHARS = {
+    '0': '\0',
+    'a': '\a',
+    'b': '\b',
+    't': '\t',
+    'r': '\r',
+    'n': '\n',
+}
+
+
 class IniTransform(Transform):
     """Transform for the Ini language definition.
 
@@ -134,7 +144,7 @@ class IniTransform(Transform):
             # unescape
             for t in items:
                 if t.startswith('\\'):
-                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else t[1]
+                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else INI_ESCAPE_CHARS.get(t[1], t[1])
                 result.append(t)
         return ''.join(result)
 
-- 
2.43.0


From fd5b02f264b7968f7769f18b5c8f51a6904d0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 54/67] fix: French numerals from 70 to 79 and 90 to 99

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 2ff9653..6e6975e 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -419,8 +419,8 @@ class Français(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
-        yield r'({})[\s-]*({})'.format(
-            words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
+        yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
+            words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
-- 
2.43.0


From 0bd6c074b9adae3dcb92f9d27a96a9a0736395b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 55/67] fix: Dutch and German tens that start with the name of
 a digit

---
 parce/lang/numbers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 6e6975e..6f9aa08 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -308,10 +308,10 @@ class Nederlands(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         yield words(cls._TO19[10:]), Number, -1
+        yield words(cls._TENS), Number, -1
         yield r'({})(?:\s*[eë]n\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(cls._TENS)), bygroup(Number, Number), -1
-        yield words(cls._TENS), Number, -1
         yield cls._TO19[0], Number, -1
         yield default_target, -1
 
@@ -361,10 +361,11 @@ class Deutsch(Numbers):
         yield _SKIP
         TENS = cls._TENS + ('dreissig',)
         yield words(cls._TO19[10:]), Number, -1
+        yield words(TENS), Number, -1
         yield r'({})(?:\s*und\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(TENS)), bygroup(Number, Number), -1
-        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
+        yield words(cls._TO19[:1] + ('eins',)), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 50e6fdc28aa0ecc30df169ac5da47e900941f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 56/67] fix: German plural of million

---
 parce/lang/numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 6f9aa08..aa9d5af 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -353,7 +353,7 @@ class Deutsch(Numbers):
     """
     _TENS = DEUTSCH_TENS
     _TO19 = DEUTSCH_TO19
-    _HUNDRED, _THOUSAND, _MILLION = "hundert", "tausend", "million"
+    _HUNDRED, _THOUSAND, _MILLION = "hundert", "tausend", "million(?:en)?"
 
     @lexicon(re_flags=re.IGNORECASE)
     def n99(cls):
-- 
2.43.0


From e1a10657528e3a94cd0aee9d4bfd207f1f96fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:04 +0000
Subject: [PATCH 57/67] fix: French quatre-vingts before a multiplier

---
 parce/lang/numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index aa9d5af..3c7e93b 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -419,6 +419,7 @@ class Français(Numbers):
     def n99(cls):
         """Numerical value below 100."""
         yield _SKIP
+        yield r'quatre-vingts\b', Number, -1
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
         yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
             words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
@@ -427,7 +428,7 @@ class Français(Numbers):
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
             words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
         yield words(cls._TO19), Number, -1
-        yield words(('quatre-vingts', 'zero')), Number, -1
+        yield 'zero', Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From ee96a126ab69a1bda7742529802f0e5de4014e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:13 +0000
Subject: [PATCH 58/67] fix: merge_adjacent() yields tuples by default

---
 parce/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index a74a982..839887b 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -672,15 +672,15 @@ def fix_boundaries(stream, start, end):
             yield i
 
 
-def merge_adjacent(stream, factory=tuple):
+def merge_adjacent(stream, factory=lambda *args: args):
     """Yield items from a stream of tuples.
 
     The first two items of each tuple are regarded as pos and end.
     If they are adjacent, and the rest of the tuples compares the same,
     the items are merged.
 
-    Instead of the default factory `tuple`, you can give a named tuple
-    or any other type to wrap the streams items in.
+    Instead of the default factory, which creates plain tuples, you can give a
+    named tuple or any other type to wrap the streams items in.
 
     """
     stream = iter(stream)
-- 
2.43.0


From 478be84f74a53819db5af53a8f862bb7c59866aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:21 +0000
Subject: [PATCH 59/67] fix: encode_text() uses the default encoding of the
 language when the one in the text is unknown

---
 parce/docio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 7b07d33..3093b9d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -321,8 +321,8 @@ def encode_text(text, root_lexicon=None, encoding=None, newline=None):
     """
     if not encoding:
         h = IO.get(root_lexicon)
-        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])
-                    or h.default_encoding()) or DEFAULT_ENCODING
+        encoding = (_validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE]))
+                    or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING)
     b = io.BytesIO()
     with io.TextIOWrapper(b, encoding=encoding, newline=newline) as f:
         f.write(text)
-- 
2.43.0


From f2949bf07ed57a2199eba13c7aee42a437c64e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:21 +0000
Subject: [PATCH 60/67] fix: CSS declarations can contain a slash

---
 parce/lang/css.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 5138ede..bc2e6b6 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -121,6 +121,7 @@ class Css(Language):
         yield r";", Delimiter, -1
         yield r"!important\b", Keyword, -1
         yield from cls.common()
+        yield r"/", Delimiter   # e.g. in "font: 12px/1.5 serif"
         yield r"\s+", skip  # stay here on whitespace only
         yield default_target, -1
 
-- 
2.43.0


From f580883d6a260b485d41e45c89bdb90ab834646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:21 +0000
Subject: [PATCH 61/67] fix: theme: reading the font shorthand with weight,
 size, line height and slant

---
 parce/theme.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 27f24d2..5c304a0 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -93,6 +93,10 @@ from . import css
 from . import util
 
 
+#: the units of the slant of an oblique font
+ANGLE_UNITS = ("deg", "grad", "rad", "turn")
+
+
 class AbstractTheme:
     """Defines the interface of a Theme as used by a formatter."""
 
@@ -476,7 +480,7 @@ class TextFormat:
                 self.font_style = v.text
                 self.font_style_angle = None
                 self.font_style_angle_unit = None
-                if n and n.number is not None:
+                if n and n.number is not None and n.unit in ANGLE_UNITS:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                     return
@@ -510,7 +514,7 @@ class TextFormat:
     @_dispatch("font")
     def read_font(self, values):
         self.read_font_style(values)
-        numvalues = []
+        sized = False
         for v in values:
             if v.text in ("caption", "icon", "menu", "message-box",
                           "small-caption", "status-bar"):
@@ -524,16 +528,16 @@ class TextFormat:
                 self.font_stretch = v.text
             elif v.text in ("bold", "lighter", "bolder"):
                 self.font_weight = v.text
-            elif v.number is not None:
-                numvalues.append((v.number, v.unit))
+            elif sized or v.unit in ANGLE_UNITS:
+                pass    # the line height after the size, or the slant of oblique
+            elif v.number and v.unit is None:
+                self.font_weight = v.number
+            elif v.number is not None or v.text in (
+                    "xx-small", "x-small", "small", "medium", "large", "x-large",
+                    "xx-large", "xxx-large", "larger", "smaller"):
+                self.read_font_size([v])
+                sized = True
         self.read_font_family(values)
-        # if more than one size was given, weight is the first
-        if len(numvalues) == 1:
-            self.font_size, self.font_size_unit = numvalues[0]
-        elif len(numvalues) > 1:
-            if self.font_weight is None:
-                self.font_weight = numvalues[0][0]
-            self.font_size, self.font_size_unit = numvalues[1]
 
 
 def css_class(action):
-- 
2.43.0


From c09a83fba61f6b58e145f4035f99048dd04cdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:21 +0000
Subject: [PATCH 62/67] fix: Style.select_lxml_element() works and stops at the
 root element

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index c76246c..7a766a3 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -384,7 +384,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -731,7 +730,8 @@ class LxmlElement(AbstractElement):
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        return None if parent is None else type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From 0c5d5f06fae380b5b3e0a7cf0c736713ccdc0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:50 +0000
Subject: [PATCH 63/67] fix: get_transform() when the transformer is removed
 meanwhile

---
 parce/work.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 91447eb..da017f0 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -305,15 +305,16 @@ class Worker(util.Observable):
         If no Transformer was set, None is returned always.
 
         """
-        if self._transformer:
-            with self._condition:
-                if self._transform_state & REPLACE:
-                    if callback:
-                        self._transform_ready.connect("ready", callback, True)
-                    if not wait:
-                        return
-                    self.wait_transform()
-                return self._transformer.result(self._builder.root)
+        with self._condition:
+            if self._transformer and self._transform_state & REPLACE:
+                if callback:
+                    self._transform_ready.connect("ready", callback, True)
+                if not wait:
+                    return
+                self.wait_transform()
+            transformer = self._transformer     # can be removed while waiting
+            if transformer:
+                return transformer.result(self._builder.root)
 
     def slot_invalidate(self, context):
         """Called when TreeBuilder emits ``("invalidate", context)``.
-- 
2.43.0


From 974cefa0a90beeb95e57d47d66965edeeb0bcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:50 +0000
Subject: [PATCH 64/67] fix: Worker.slot_replace() when the transformer is
 removed meanwhile

---
 parce/work.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index da017f0..c331fc9 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -333,8 +333,9 @@ class Worker(util.Observable):
         Interrupts the transformer.
 
         """
-        if self._transformer:
-            self._transformer.interrupt(self._builder.root)
+        transformer = self._transformer     # can be removed in the main thread
+        if transformer:
+            transformer.interrupt(self._builder.root)
 
     def start_build(self):
         """Called when the build process starts.
-- 
2.43.0


From 9a3696d0947e457e99c9bc491c5f4a3a185995b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:59 +0000
Subject: [PATCH 65/67] fix: validate: things that are not a rule are reported
 and don't raise an exception

---
 parce/validate.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parce/validate.py b/parce/validate.py
index 3a33374..9f7780a 100644
--- a/parce/validate.py
+++ b/parce/validate.py
@@ -25,7 +25,20 @@ import reprlib
 import parce
 from . import introspect
 from .lexicon import Lexicon
-from .ruleitem import variations, a_number
+from .ruleitem import variations, pre_evaluate_rule, a_number
+
+
+def lexicon_rules(lexicon):
+    """Yield the rules of the lexicon with the lexicon argument evaluated.
+
+    Things that are not a rule at all are yielded as they are, because
+    ``lexicon.rules`` can't be computed in that case.
+
+    """
+    for rule in lexicon.descriptor.rules_func(lexicon.language) or ():
+        if isinstance(rule, (tuple, list)):
+            rule = pre_evaluate_rule(rule, lexicon.arg)
+        yield rule
 
 
 class LexiconValidator:
@@ -56,7 +69,7 @@ class LexiconValidator:
         self.warnings.clear()
         default_act, default_tg = None, None
         patterns = set()
-        for n, rule in enumerate(self.lexicon.rules, 1):
+        for n, rule in enumerate(lexicon_rules(self.lexicon), 1):
             if not isinstance(rule, (tuple, list)):
                 self.error("rule #{}: invalid rule; should be tuple or list".format(n))
                 continue
@@ -166,8 +179,9 @@ class LexiconValidator:
                     # run away default states creating new contexts all the time
                     self.error("circular default target: {}".format(lexicons), lexicon)
                 return
-            for pattern, *target in lexicon.rules:
-                if pattern is parce.default_target:
+            for rule in lexicon_rules(lexicon):
+                if isinstance(rule, tuple) and rule and rule[0] is parce.default_target:
+                    target = rule[1:]
                     break
             else:
                 break
-- 
2.43.0


From c7e3620e940dbc439f258962f05e05c23b6072c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:19 +0000
Subject: [PATCH 66/67] fix: Node.delete() removed another node when a context
 became empty

---
 parce/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 9800164..02ad9f6 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -312,7 +312,8 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
+        # get the indices first, an empty context can't be found by its position
+        for parent, index in list(self.ancestors_with_index()):
             del parent[index]
             if len(parent):
                 return parent
-- 
2.43.0


From 98cbb801a432eb9982030a8b1d9e967771be6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:14 +0000
Subject: [PATCH 67/67] fix: css: percentages that are not whole numbers, and
 percentages of the alpha value

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 7a766a3..7689fbc 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1287,10 +1287,10 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
         if n < 0: n = 0
         if n > maximum: n = maximum
-        return n
+        return type(maximum)(n)
 
 
 class Value:
-- 
2.43.0

