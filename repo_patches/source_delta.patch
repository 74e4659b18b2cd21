From 84600c11b9899f9b96403c5978f56fc4136601ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:01 +0000
Subject: [PATCH 01/52] fix: updatePayloads writes each result at the position
 it came from, boxed

An explicit default-valued payload before an element shifted the position the
result was written to, and an unboxed result was stored as is.
---
 fibertree/core/fiber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..9c4cba9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2558,8 +2558,9 @@ class Fiber:
                 p.updatePayloads(func, depth=depth - 1)
         else:
             # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if not Payload.isEmpty(p, default=self.getDefault()):
+                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
 
-- 
2.43.0


From af21c492df40bfd481c5f95f9344d4530e933968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:47 +0000
Subject: [PATCH 02/52] fix: Fiber.__setitem__ resolves negative positions
 before the order check

With a negative position the neighbour checks looked at the wrong elements, so
f[-1] could be given an out-of-order coordinate and 'f[-1] += 1' was refused
after having updated the payload.
---
 fibertree/core/fiber.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 9c4cba9..384b2a8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2087,6 +2087,15 @@ class Fiber:
 
         position = key
 
+        #
+        # As for __getitem__(), a negative position counts from the end
+        #
+        if position < 0:
+            position += len(self.coords)
+
+        if position < 0 or position >= len(self.coords):
+            raise IndexError(f"The index ({key}) is out of range")
+
         #
         # TBD: Get isinstance of CoordPayload to work...
         #
-- 
2.43.0


From eac051d1db0240710609a6ff2132b631ff81c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 03/52] fix: keep rank lists in step with fiber assignment,
 append, extend, clear and populate

Fibers stored through __setitem__, append, extend and insertOrLookup enter
the rank below, fibers dropped by clear, __setitem__, <<= and populate leave
it; populate copes with bodies that insert or drop elements, and drops every
element the body left empty. Assignment to an owned fiber no longer changes
the default of its rank.
---
 fibertree/core/fiber.py     | 82 +++++++++++++++++++++++++++++++++----
 fibertree/core/iterators.py | 46 +++++++++++----------
 fibertree/core/rank.py      | 22 ++++++++++
 3 files changed, 120 insertions(+), 30 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 384b2a8..6bca66a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -961,6 +961,46 @@ class Fiber:
 
         return payload
 
+    def _enterRank(self, payload):
+        """Enter a payload just stored in this fiber (and every fiber below
+        it) into the ranks below this fiber's owner. A fiber that
+        already belongs to some rank is left there.
+
+        """
+
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None:
+            return
+
+        if not isinstance(payload, Fiber) or payload.getOwner() is not None:
+            return
+
+        owner.getNextRank().append(payload)
+
+        for p in payload.payloads:
+            payload._enterRank(p)
+
+    def _leaveRank(self, payload):
+        """Take a payload just dropped from this fiber (and every fiber
+        below it) out of the ranks below this fiber's owner.
+
+        """
+
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None:
+            return
+
+        if not isinstance(payload, Fiber) \
+                or payload.getOwner() is not owner.getNextRank():
+            return
+
+        for p in payload.payloads:
+            payload._leaveRank(p)
+
+        owner.getNextRank().remove(payload)
+
     def _deletePayload(self, coord):
         """Remove a payload """
 
@@ -1362,10 +1402,12 @@ class Fiber:
                 return self.payloads[index]
             self.coords.insert(index, coord)
             self.payloads.insert(index, payload)
+            self._enterRank(payload)
             return self.payloads[index]
         except StopIteration:
             self.coords.append(coord)
             self.payloads.append(payload)
+            self._enterRank(payload)
             return self.payloads[-1]
 
 
@@ -1384,6 +1426,8 @@ class Fiber:
             self.coords.append(coord)
             self.payloads.append(payload)
 
+        self._enterRank(payload)
+
         return None
 
 
@@ -2123,7 +2167,11 @@ class Fiber:
         # A payload of None just updates the coordinate
         #
         if payload is not None:
+            if payload is not self.payloads[position]:
+                self._leaveRank(self.payloads[position])
+
             self.payloads[position] = Payload.maybe_box(payload)
+            self._enterRank(self.payloads[position])
 
 
     def __len__(self):
@@ -2311,6 +2359,9 @@ class Fiber:
 
         """
 
+        for payload in self.payloads:
+            self._leaveRank(payload)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -2360,6 +2411,7 @@ class Fiber:
 
         self.coords.append(coord)
         self.payloads.append(payload)
+        self._enterRank(payload)
 
 
     def extend(self, other):
@@ -2404,6 +2456,9 @@ class Fiber:
         self.coords.extend(other.coords)
         self.payloads.extend(other.payloads)
 
+        for payload in other.payloads:
+            self._enterRank(payload)
+
         return None
 
 
@@ -3009,18 +3064,29 @@ class Fiber:
         assert Payload.contains(other, Fiber)
         assert self._unique
 
-        if len(self.coords) != 0:
-            #
-            # Clear out any existing data
-            #
-            self.coords = []
-            self.payloads = []
+        #
+        # Note: `other` may be (or be derived from) this fiber, so get
+        # its elements before clearing out any existing data
+        #
+        elements = list(other)
+        old_payloads = self.payloads
+
+        self.coords = []
+        self.payloads = []
 
-        self._setDefault(other.getDefault())
-        for c, p in other:
+        #
+        # The default of an owned fiber belongs to its rank
+        #
+        if self.getOwner() is None:
+            self._setDefault(other.getDefault())
+
+        for c, p in elements:
             ref = self.getPayloadRef(c)
             ref <<= p
 
+        for p in old_payloads:
+            self._leaveRank(p)
+
         return self
 
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..ea995c3 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1121,7 +1121,6 @@ def __lshift__(self, other, start_pos=None):
                 b_traced = Metrics.isTraced(rank, b_trace)
 
             # Add coordinates/payloads to a_fiber where necessary
-            maybe_remove = False
             b = self.b_fiber.__iter__(tick=False)
 
             # Track the fiber position
@@ -1190,37 +1189,40 @@ def __lshift__(self, other, start_pos=None):
                 if new_a_payload:
                     # Do not actually insert the payload into the tensor
                     a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
-                    maybe_remove = True
                     self.a_fiber.setSavedPos(a_pos)
 
                 # Read the a coordinate
                 elif a_read_traced:
                     Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
-                    maybe_remove = False
-
-                else:
-                    maybe_remove = False
 
                 yield b_coord, (a_payload, b_payload)
 
+                # The body may have moved the payload (or dropped it)
+                a_coords = self.a_fiber.coords
+                if a_pos >= len(a_coords) or a_coords[a_pos] != b_coord:
+                    a_pos = bisect.bisect_left(a_coords, b_coord)
+
+                dropped = a_pos >= len(a_coords) or a_coords[a_pos] != b_coord
+                if not dropped:
+                    a_payload = self.a_fiber.payloads[a_pos]
+
                 # If this was never updated, remove it
-                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and \
-                        len(a_payload) == 0) or \
-                        (not isinstance(a_payload, type(self.a_fiber)) and \
-                        a_payload == self.a_fiber.getDefault()):
+                if dropped or Payload.isEmpty(a_payload, self.a_fiber.getDefault()):
                     # Clear the fiber
-                    index = bisect.bisect_left(self.a_fiber.coords, b_coord)
-                    del self.a_fiber.coords[index]
-                    del self.a_fiber.payloads[index]
-
-                    # Remove the payload from its owning rank (if relevant)
-                    if self.a_fiber.getOwner() is not None and \
-                            self.a_fiber.getOwner().getNextRank() is not None:
-                        popped = self.a_fiber.getOwner().getNextRank().pop()
-
-                        # Make sure that the rank was not modified in the
-                        # middle and we actually popped off the correct fiber
-                        assert id(a_payload) == id(popped)
+                    if not dropped:
+                        del self.a_fiber.coords[a_pos]
+                        del self.a_fiber.payloads[a_pos]
+
+                        # Remove the payload from its owning rank (if relevant)
+                        owner = self.a_fiber.getOwner()
+                        if owner is not None and owner.getNextRank() is not None:
+                            # Make sure that nothing foreign to the tree was
+                            # added to the rank in the middle
+                            last = owner.getNextRank().getFibers()[-1]
+                            assert last is a_payload or any(
+                                p is last for f in owner.getFibers() for p in f.payloads)
+
+                            self.a_fiber._leaveRank(a_payload)
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..83e6467 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -503,6 +503,28 @@ class Rank:
         fiber.setOwner(None)
         return fiber
 
+    def remove(self, fiber):
+        """
+        Remove the given fiber, wherever it is in the list
+
+        Parameters
+        ----------
+
+        fiber: Fiber
+            The fiber to remove; nothing happens if the rank does not
+            hold it
+
+        Returns
+        -------
+
+        Nothing
+        """
+        for i in reversed(range(len(self.fibers))):
+            if self.fibers[i] is fiber:
+                del self.fibers[i]
+                fiber.setOwner(None)
+                return
+
 #
 # Linked list methods
 #
-- 
2.43.0


From 711d0ba24631ca9706f6d795f2c14279d4da7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 04/52] fix: Fiber.copy(preserve_owner=False) handles every
 sub-fiber, not just the non-empty ones

With the owners detached, emptiness was judged against the wrong default, so
sub-fibers of a tensor with a non-zero default could stay detached (or lose
their attributes in the copy).
---
 fibertree/core/fiber.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6bca66a..58723a8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4681,7 +4681,7 @@ class Fiber:
         owners[None] = self.getOwner()
         self.setOwner(None)
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 owners[c] = p._detach_owner()
 
@@ -4692,7 +4692,7 @@ class Fiber:
         if owner is not None:
             self.setRankAttrs(copy.deepcopy(owner.getAttrs()))
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_attrs(owners[c])
 
@@ -4701,7 +4701,7 @@ class Fiber:
         """Reattach the owners to this fiber"""
         self.setOwner(owners[None])
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_owner(owners[c])
 
-- 
2.43.0


From e9b57a729f9c58a9baf09147326f474270f31e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 05/52] fix: Tensor.setRoot copies sub-fibers that already
 belong to another tensor

The root was copied in that case, but the fibers below an unowned root were
taken away from the tensor they belonged to.
---
 fibertree/core/tensor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..0808cc3 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -756,9 +756,19 @@ class Tensor:
         #       transistion from raw fibers as payloads to fibers in
         #       Payload
 
-        for p in fiber.getPayloads():
+        for i, p in enumerate(fiber.getPayloads()):
             if Payload.contains(p, Fiber):
-                self._addFiber(Payload.get(p), level + 1)
+                p = Payload.get(p)
+
+                #
+                # As for the root, copy a fiber that already belongs
+                # to another tensor
+                #
+                if p.getOwner() is not None:
+                    p = p.copy(preserve_owner=False)
+                    fiber.payloads[i] = p
+
+                self._addFiber(p, level + 1)
 
     def getRoot(self):
         """Get the root fiber of the tensor
-- 
2.43.0


From 1511739e86c38a2294850ffd4711fe794c0e9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 06/52] fix: updateCoords reaches every fiber at the requested
 depth

Only the first sub-fiber was updated, and the new rank id was lost on the
way down. A fiber without a shape is not an error (after the update was
already made).
---
 fibertree/core/fiber.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 58723a8..f02366d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2534,8 +2534,12 @@ class Fiber:
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
+                p.updateCoords(func,
+                               depth=depth - 1,
+                               new_shape=new_shape,
+                               new_rank_id=new_rank_id)
+
+            return None
 
         # Update my coordinates
 
@@ -2557,7 +2561,7 @@ class Fiber:
             # self.logger.debug("Fiber.updateCoords() - sort needed")
 
             zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
+            sorted_cp = sorted(zipped_cp, key=lambda cp: cp[0])
             self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
 
         #
@@ -2571,7 +2575,7 @@ class Fiber:
 
         new_shape = self.getRankAttrs().getShape()
 
-        assert isinstance(new_shape, type(self.coords[0])), \
+        assert new_shape is None or isinstance(new_shape, type(self.coords[0])), \
             "Type of shape must match shape of coordinates"
 
         return None
-- 
2.43.0


From b1fc0bbbda01ffef6b7d75ddd3ce8c73f85323b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 07/52] fix: rank transforms below the top rank process empty
 sub-fibers too

The *Below methods skipped empty sub-fibers, leaving them with the old number
of levels; swapRanks and unflattenRanks could not handle empty fibers, lost
the shape, and an all-empty tensor kept its coordinates under the swapped
rank ids. unflattenRanks also lost the leaf default.
---
 fibertree/core/fiber.py  | 93 ++++++++++++++++++++++++++++------------
 fibertree/core/tensor.py | 35 ++++++---------
 2 files changed, 79 insertions(+), 49 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f02366d..1ba2805 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4103,6 +4103,15 @@ class Fiber:
 
         """
 
+        # Make sure that there is at least one element to swap
+        assert not self.isLazy()
+        assert not self.isEmpty()
+
+        return self._swapRanks()
+
+    def _swapRanks(self):
+        """Swap the (highest) two ranks of the fiber, which may be empty"""
+
         assert not self.isLazy()
         assert self._ordered and self._unique
 
@@ -4113,22 +4122,26 @@ class Fiber:
         # does the deepcopy for us
         flattened = self.flattenRanks(style="pair")
 
-        # Make sure that the flattened fiber has at least one coordinate
-        assert(len(flattened.coords) > 0)
-
         # Make sure the coord is a >=2-element tuple
-        assert(len(flattened.coords[0]) >= 2)
+        assert all(len(c) >= 2 for c in flattened.coords)
 
         #
         # Sort on secord coordinate of flattened fiber
         # and create new sorted fiber
         #
-        sorted_cp = sorted([(c[::-1], p) for c, p in flattened])
+        sorted_cp = sorted([(c[::-1], p) for c, p in flattened], key=lambda cp: cp[0])
 
         coords = [c for c, _ in sorted_cp]
         payloads = [p for _, p in sorted_cp]
 
-        flattened_sorted = Fiber(coords, payloads, default=flattened.getDefault())
+        shape = flattened.getShape(all_ranks=False, authoritative=True)
+        if shape is not None:
+            shape = shape[::-1]
+
+        flattened_sorted = Fiber(coords,
+                                 payloads,
+                                 default=flattened.getDefault(),
+                                 shape=shape)
 
         #
         # Unflatten to get original coordinates in swapped ranks
@@ -4464,9 +4477,20 @@ class Fiber:
         """
 
         assert not self.isLazy()
-        assert isinstance(self.coords[0], tuple)
+        assert all(isinstance(c, tuple) for c in self.coords)
         assert self._ordered and self._unique
 
+        #
+        # Get the shapes of the new top (c1) rank and lower (c0) rank
+        #
+        shape1 = None
+        shape0 = None
+
+        shape = self.getShape(all_ranks=False, authoritative=True)
+        if isinstance(shape, tuple):
+            shape1 = shape[0]
+            shape0 = shape[1:] if len(shape) > 2 else shape[1]
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4513,7 +4537,8 @@ class Fiber:
 
                     cur_fiber = Fiber(coords0,
                                       payloads0,
-                                      default=self.getDefault())
+                                      default=self.getDefault(),
+                                      shape=shape0)
 
                     if levels > 1:
                         cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
@@ -4537,31 +4562,33 @@ class Fiber:
         #
         # Pick up the last element of the new top rank
         #
-        coords1.append(c1_last)
-
-        #
-        # Create the new lower (c0) rank
-        #
+        if not first:
+            coords1.append(c1_last)
 
-        fiber0 = Fiber(coords0,
-                       payloads0,
-                       default=self.getDefault())
+            #
+            # Create the new lower (c0) rank
+            #
 
+            fiber0 = Fiber(coords0,
+                           payloads0,
+                           default=self.getDefault(),
+                           shape=shape0)
 
-        #
-        # Conditionally recurse
-        #
-        if levels > 1:
-            fiber0 = fiber0.unflattenRanks(levels=levels - 1)
+            #
+            # Conditionally recurse
+            #
+            if levels > 1:
+                fiber0 = fiber0.unflattenRanks(levels=levels - 1)
 
-        payloads1.append(fiber0)
+            payloads1.append(fiber0)
 
         #
         # Create (and return) the new top (c1) rank
         #
-        fiber1 = self._newFiber(coords1,
-                                payloads1,
-                                default=Fiber())
+        fiber1 = Fiber(coords1,
+                       payloads1,
+                       default=Fiber(),
+                       shape=shape1)
 
         return fiber1
 
@@ -4626,8 +4653,18 @@ class Fiber:
 
         """
 
-        update_lambda = lambda i, c, p: func(p, *args, **kwargs)
-        return self.updatePayloads(update_lambda, depth=depth)
+        #
+        # Note: unlike updatePayloads(), empty payloads are updated as
+        # well, since `func` may change the number of levels below here
+        #
+        if depth > 0:
+            for p in self.payloads:
+                p.updatePayloadsBelow(func, *args, depth=depth - 1, **kwargs)
+        else:
+            self.payloads = [Payload.maybe_box(func(p, *args, **kwargs))
+                             for p in self.payloads]
+
+        return None
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
@@ -4643,7 +4680,7 @@ class Fiber:
                                       splitUnEqual)
 
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   _swapRanks)
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 0808cc3..076abbc 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1552,17 +1552,13 @@ class Tensor:
         #
         # Create new shape list
         #
-        # TBD: Create shape
-        #
-        shape = None
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape:
+            shape[depth], shape[depth + 1] = shape[depth + 1], shape[depth]
 
-        # Only call Fiber.swapRanks if there are actually payloads to swap
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.swapRanks,
-                                    Fiber.swapRanksBelow,
-                                    depth=depth)
-        else:
-            root = copy.deepcopy(self.getRoot())
+        root = self._modifyRoot(Fiber._swapRanks,
+                                Fiber.swapRanksBelow,
+                                depth=depth)
 
         #
         # Create Tensor from rank_ids and root fiber
@@ -1781,16 +1777,10 @@ class Tensor:
 
         rank_ids, shape = self._unflattenRankIdsShape(depth, levels, style)
 
-        #
-        # Call Fiber.unflattenRanks if there are actually ranks to unflatten
-        #
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.unflattenRanks,
-                                    Fiber.unflattenRanksBelow,
-                                    depth=depth,
-                                    levels=levels)
-        else:
-            root = Fiber()
+        root = self._modifyRoot(Fiber.unflattenRanks,
+                                Fiber.unflattenRanksBelow,
+                                depth=depth,
+                                levels=levels)
 
         #
         # Create Tensor from rank_ids and root fiber
@@ -1799,6 +1789,7 @@ class Tensor:
         tensor.setName(self.getName() + "+unflattened")
         tensor.setColor(self.getColor())
         tensor.setMutable(self.isMutable())
+        tensor.setDefault(self.getDefault())
 
         # Maintain the formats for all untouched rank_ids
         # Compress everything else
@@ -1835,7 +1826,9 @@ class Tensor:
         #
         # Create new shape list
         #
-        shape = copy.deepcopy(self.getShape())
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if not shape:
+            return rank_ids, None
 
         for d in range(levels):
             s = shape[depth + d]
-- 
2.43.0


From 1f54b8dff128e1ab16e20f82cde457dcb846a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 08/52] fix: updatePayloads keeps the rank lists in step when
 it replaces sub-fibers

---
 fibertree/core/fiber.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 1ba2805..05ba96f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2628,7 +2628,13 @@ class Fiber:
             # Update my payloads
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
                 if not Payload.isEmpty(p, default=self.getDefault()):
-                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
+                    new_p = Payload.maybe_box(func(i, c, p))
+
+                    if new_p is not p:
+                        self._leaveRank(p)
+
+                    self.payloads[i] = new_p
+                    self._enterRank(new_p)
 
         return None
 
-- 
2.43.0


From b534769dc08ed0d226ad7cfe97258ae15e811483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 09/52] fix: splits cope with halo elements that fall in no
 partition

---
 fibertree/core/fiber.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 05ba96f..b19129d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3583,7 +3583,8 @@ class Fiber:
 
                         part += self.step
 
-                    search_start = min(inds)
+                    if inds:
+                        search_start = min(inds)
 
                 for uc, lc, lp in zip(upper_coords, lower_coords, lower_payloads):
                     yield self.build_elem(uc, lc, lp)
@@ -3761,7 +3762,8 @@ class Fiber:
 
                         i += 1
 
-                    search_start = min(inds)
+                    if inds:
+                        search_start = min(inds)
 
                 for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                     if lc:
-- 
2.43.0


From ea207ef646c06261d32c6ba01713732c7f1ac52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 10/52] fix: getDepth of an unowned fiber looks past empty
 sub-fibers

---
 fibertree/core/fiber.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b19129d..3162441 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2945,15 +2945,11 @@ class Fiber:
         #
         # Just have a raw fiber, so count levels
         #
-        fiber = self
-
-        depth = 1
-
-        while len(fiber.payloads) > 0 and isinstance(fiber.payloads[0], Fiber):
-            depth += 1
-            fiber = fiber.payloads[0]
+        # Note: some sub-fibers may be empty, so look at all of them
+        #
+        below = [p.getDepth() for p in self.payloads if isinstance(p, Fiber)]
 
-        return depth
+        return 1 + max(below, default=0)
 
 
 #
-- 
2.43.0


From 5ecf6c594d949bf574a08a39a2f3d244afdd5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 11/52] fix: an estimated shape covers every coordinate

A fiber that was not the first of its rank contributed its largest coordinate
rather than one more, and for tuple coordinates the lexicographically largest
tuple does not bound every position.
---
 fibertree/core/fiber.py | 27 ++++++++++++++++++++++++++-
 fibertree/core/rank.py  |  9 ++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 3162441..15a2f8f 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2790,10 +2790,19 @@ class Fiber:
         # Update shape for this Fiber at this level
         #
         new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
+
+        if isinstance(max_coord, tuple):
+            #
+            # The largest tuple need not be the largest in every position
+            #
+            for c in self.coords:
+                new_shape = Fiber._maxShape(new_shape,
+                                            Fiber._transCoord(c, lambda c: c + 1))
+
         if len(shape) < level + 1:
             shape.append(new_shape)
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = Fiber._maxShape(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
@@ -2804,6 +2813,22 @@ class Fiber:
 
         return shape
 
+    @staticmethod
+    def _maxShape(shape_a, shape_b):
+        """Find the smallest shape that covers both of the given shapes"""
+
+        if isinstance(shape_a, tuple) and isinstance(shape_b, tuple) \
+                and len(shape_a) == len(shape_b):
+            return tuple(Fiber._maxShape(a, b) for a, b in zip(shape_a, shape_b))
+
+        #
+        # The shape of an empty fiber is zero, even for tuple coordinates
+        #
+        if isinstance(shape_a, tuple) != isinstance(shape_b, tuple):
+            return shape_a if shape_b == 0 else shape_b
+
+        return max(shape_a, shape_b)
+
     @staticmethod
     def _transCoord(coord, trans_fn=lambda c: c):
         """Translate all integers of a coordinate according to the function,
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 83e6467..688b454 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -6,6 +6,7 @@ A class used to implement a rank (or dimension) of a tensor.
 
 """
 
+from functools import reduce
 import logging
 import pickle
 
@@ -221,7 +222,8 @@ class Rank:
                 #
                 # We do not actually know the shape, but we can estimate it
                 #
-                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
+                return reduce(Fiber._maxShape,
+                              [f.estimateShape(all_ranks=False) for f in self.fibers])
 
             return self._attrs.getShape()
 
@@ -239,7 +241,8 @@ class Rank:
         elif len(self.fibers) == 0:
             shape = [0]
         else:
-            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
+            shape = [reduce(Fiber._maxShape,
+                            [f.estimateShape(all_ranks=False) for f in self.fibers])]
 
         if self.next_rank is not None:
             rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
@@ -457,7 +460,7 @@ class Rank:
             if old is None and new != 0:
                 self._attrs.setShape(new)
             elif new != 0:
-                self._attrs.setShape(max(old, new))
+                self._attrs.setShape(Fiber._maxShape(old, new))
 
         #
         # Set this rank as owner of the fiber
-- 
2.43.0


From aaaf5f98da9ee1647b74d36afddf48dde9184021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 12/52] fix: writing to the stand-in for an absent sub-fiber no
 longer touches the rank lists

getPayload() of an absent interior coordinate returns a fiber that is not in
the tree; inserting below it entered stray fibers into the tensor's ranks.
---
 fibertree/core/fiber.py | 19 +++++++++++++++++--
 fibertree/core/rank.py  |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 15a2f8f..7465209 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -246,6 +246,12 @@ class Fiber:
         #
         self.setOwner(None)
 
+        #
+        # A transient fiber stands in for an absent sub-fiber: it has an
+        # owner, but is not among the fibers of that rank
+        #
+        self._transient = False
+
         # Create a rank_attrs
         if rank_attrs is not None:
             self.setRankAttrs(rank_attrs)
@@ -970,10 +976,13 @@ class Fiber:
 
         owner = self.getOwner()
 
-        if owner is None or owner.getNextRank() is None:
+        if owner is None or owner.getNextRank() is None or self._transient:
             return
 
-        if not isinstance(payload, Fiber) or payload.getOwner() is not None:
+        if not isinstance(payload, Fiber):
+            return
+
+        if payload.getOwner() is not None and not payload._transient:
             return
 
         owner.getNextRank().append(payload)
@@ -1639,6 +1648,11 @@ class Fiber:
         else:
             next_default = None
 
+        #
+        # Nothing below a transient fiber is in the tensor either
+        #
+        addtorank = addtorank and not self._transient
+
         return Fiber._instantiateDefault(owner, default, next_default, addtorank)
 
 
@@ -1728,6 +1742,7 @@ class Fiber:
                         # Set the owner, but do not add to rank
                         #
                         value.setOwner(owner.next_rank)
+                        value._transient = True
                 else:
                     value._setDefault(next_default)
             else:
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 688b454..7b6cebc 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -466,6 +466,7 @@ class Rank:
         # Set this rank as owner of the fiber
         #
         fiber.setOwner(self)
+        fiber._transient = False
 
         #
         # Check default value for new coordinates in the fiber
-- 
2.43.0


From 894910ff2cd3acce49336b5647e7a2c790ad97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 13/52] fix: co-iteration of empty, uncompressed and
 tuple-valued operands, and of fibers used before

Intersections with an empty tuple-coordinate operand yield nothing, a - b
keeps the default elements an uncompressed a presents, union and xor do not
leave stand-in fibers in the rank lists, n-ary intersection does not unroll
tuple payloads, and leader-follower ignores earlier traversals' saved position.
---
 fibertree/core/iterators.py | 45 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index ea995c3..2af1dd9 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -25,6 +25,10 @@ def __iter__(self, tick=True, start_pos=None):
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
     elif fmt == "U":
+        # A lazy fiber already delivers exactly the coordinates it presents
+        if self.isLazy():
+            return self.iterRange(None, None, tick=tick, start_pos=start_pos, keep_empty=True)
+
         # Warning: Because this covers only the active range, it will not work
         # for fibers with halos
         return self.iterActiveShape(tick)
@@ -119,7 +123,7 @@ def iterActiveShapeRef(self, tick=True):
     """
     return self.iterRangeShapeRef(*self.getActive(), tick=tick)
 
-def iterRange(self, start, end, tick=True, start_pos=None):
+def iterRange(self, start, end, tick=True, start_pos=None, keep_empty=False):
     """
     Iterate over the non-default elements within the given range
 
@@ -137,6 +141,9 @@ def iterRange(self, start, end, tick=True, start_pos=None):
     start_pos: Optional[int]
         Saved position to start iteration
 
+    keep_empty: bool
+        True if elements holding the default should be delivered too
+
     """
     # Cannot save a position of a lazy fiber
     assert not self.isLazy() or start_pos is None
@@ -169,7 +176,7 @@ def iterRange(self, start, end, tick=True, start_pos=None):
 
         # If we are within the range, emit the non-default elements
         elif start is None or coord >= start:
-            if not Payload.isEmpty(payload, default=self.getDefault()):
+            if keep_empty or not Payload.isEmpty(payload, default=self.getDefault()):
                 if start_pos is not None:
                     self.setSavedPos(i + j, distance=j)
 
@@ -499,11 +506,14 @@ def intersection(*args, **kwargs):
         # Lazy implementation
         class intersection_iterator:
             nested = nested_result
+            num_args = len(args)
 
             def __iter__(self):
                 for c, np in self.nested.__iter__(tick=False):
+                    # One level of nesting per operator (the operands' payloads
+                    # may be tuples themselves)
                     p = []
-                    while isinstance(Payload.get(np), tuple):
+                    for _ in range(self.num_args - 1):
                         val = Payload.get(np)
                         p.append(val[1])
                         np = val[0]
@@ -516,7 +526,9 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
+                # Each lookup starts where this traversal's last one ended, an
+                # earlier traversal's saved position means nothing here
+                start_pos = [0 if fiber.isOrdered() else None for fiber in self.fibers[1:]]
 
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
@@ -536,9 +548,8 @@ def intersection(*args, **kwargs):
                     for j, fiber in enumerate(self.fibers[1:]):
                         p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
 
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
+                        if start_pos[j] is not None:
+                            start_pos[j] = fiber.getSavedPos()
 
                         payloads.append(p_fiber)
 
@@ -715,7 +726,8 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            # Nothing to match (and no length to compare) if either is empty
+            if len_a == len_b or a_coord is None or b_coord is None:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
@@ -910,7 +922,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +932,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +941,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +950,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1025,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
@@ -1368,6 +1380,7 @@ def __sub__(self, other):
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
     result.getRankAttrs().setId(self.getRankAttrs().getId())
+    result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
     return result
 
-- 
2.43.0


From 564b59c28e066100dfd51e322a6bce2904ad75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 14/52] fix: an intersection's active range follows the operand
 with the longer coordinates

---
 fibertree/core/iterators.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 2af1dd9..ead76cf 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -556,7 +556,12 @@ def intersection(*args, **kwargs):
                     yield CoordPayload(c, tuple(payloads))
 
     # Call the constructor via the first argument
-    fiber = args[0].fromIterator(intersection_iterator, active_range=args[0].getActive())
+    if style == "two-finger":
+        active_range = nested_result.getActive()
+    else:
+        active_range = args[0].getActive()
+
+    fiber = args[0].fromIterator(intersection_iterator, active_range=active_range)
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 
@@ -820,7 +825,15 @@ def __and__(self, other):
 
             return
 
-    fiber = self.fromIterator(and_iterator, active_range=self.getActive())
+    # The result has the coordinates of the operand with the longer ones
+    active_range = self.getActive()
+    other_range = other.getActive()
+    if isinstance(other_range[0], tuple) \
+            and (not isinstance(active_range[0], tuple)
+                 or len(active_range[0]) < len(other_range[0])):
+        active_range = other_range
+
+    fiber = self.fromIterator(and_iterator, active_range=active_range)
     fiber.getRankAttrs().setId(self.getRankAttrs().getId())
     return fiber
 
-- 
2.43.0


From 9fd19afc24e0e74ef898bd551522069b24467a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 15/52] fix: projection, split and swizzle of fibers with
 empties, halos, relative coordinates, formats

project() needs no non-empty element, keeps the fiber's default, format and
rank id when reversing; splits never materialise the empties of uncompressed
ranks and state a relative partition's active range in its own coordinates;
swizzleRanks accepts list rank ids and elements outside every active range and
carries format and mutability over.
---
 fibertree/core/fiber.py  | 32 +++++++++++++++++++++++++-------
 fibertree/core/tensor.py | 33 ++++++++++++++++++++-------------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7465209..20728c3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1122,6 +1122,7 @@ class Fiber:
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         result.getRankAttrs().setId(self.getRankAttrs().getId())
 
         return result
@@ -1284,10 +1285,15 @@ class Fiber:
 
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
-            if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
+            if not self.isLazy() and len(self.coords) > 0:
+                coord_ex = self.coords[0]
             else:
-                coord_ex = 0
+                # No coordinate need be present
+                coord_ex = self.getActive()[0]
+
+                if self.isLazy():
+                    for coord_ex, _ in self.iterOccupancy(tick=False):
+                        break
 
         c0 = Fiber._transCoord(coord_ex, lambda c: 0)
         c1 = Fiber._transCoord(coord_ex, lambda c: 1)
@@ -1299,12 +1305,15 @@ class Fiber:
 
             # Build an iterator over the reversed fiber
             class reversed_iterator:
-                cps = list(zip(self.coords, self.payloads))
+                fbr = self
 
                 def __iter__(self):
-                    return reversed(self.cps)
+                    return reversed(list(self.fbr.__iter__(tick=False)))
 
             fiber = Fiber.fromIterator(reversed_iterator)
+            fiber._setDefault(self.getDefault())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
+            fiber.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
         else:
             fiber = self
@@ -1384,6 +1393,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
 
@@ -3580,7 +3590,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     # If the coordinate will not be in any partition, skip it
                     if c < active_start - self.pre_halo:
                         continue
@@ -3631,6 +3641,10 @@ class Fiber:
 
                 range_start = max(part, self.fiber.getActive()[0])
                 range_end = min(part + self.step, self.fiber.getActive()[1])
+                if self.relative:
+                    # The active range is in the partition's own coordinates
+                    range_start -= part
+                    range_end -= part
                 active_range = (range_start, range_end)
 
                 return part, coords, payloads, active_range
@@ -3764,7 +3778,7 @@ class Fiber:
 
                 search_start = 0
 
-                for c, p in self.fiber.__iter__(tick=False):
+                for c, p in self.fiber.iterOccupancy(tick=False):
                     if c < halo_start:
                         continue
 
@@ -3816,6 +3830,10 @@ class Fiber:
 
                 range_start = max(self.splits[ind], self.fiber.getActive()[0])
                 range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
+                if self.relative:
+                    # The active range is in the partition's own coordinates
+                    range_start -= self.splits[ind]
+                    range_end -= self.splits[ind]
                 active_range = (range_start, range_end)
 
                 return self.splits[ind], coords, payloads, active_range
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 076abbc..8f8668b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1405,7 +1405,8 @@ class Tensor:
         """
         # Ensure that these old and new rank_ids are permutations of each other
         old_rank_ids = self.getRankIds()
-        assert sorted(old_rank_ids) == sorted(rank_ids)
+        # (a rank id may be a list)
+        assert sorted(map(str, old_rank_ids)) == sorted(map(str, rank_ids))
 
         old_name = self.getName()
         copied = copy.deepcopy(self)
@@ -1431,7 +1432,8 @@ class Tensor:
         frontier = [(copied.getRoot(), None, None, -1)]
         frontier_coords = [None] * swiz_len
 
-        ranges = {rank: set() for rank in old_rank_ids}
+        # Active ranges of the fibers at each depth
+        ranges = [set() for _ in old_rank_ids]
 
         # Depth-first search through the fibertree and extract the coordinate
         # payload pairs
@@ -1441,7 +1443,7 @@ class Tensor:
                 frontier_coords[depth] = coord
 
             if parent is not None:
-                ranges[parent.getRankAttrs().getId()].add(parent.getActive())
+                ranges[depth].add(parent.getActive())
 
             # If this is the last point we need to swizzle, save the payload
             if depth == swiz_len - 1:
@@ -1497,24 +1499,29 @@ class Tensor:
 
         swizzled = Tensor.fromFiber(**kwargs)
 
+        swizzled.setMutable(self.isMutable())
+        for rank_id in rank_ids:
+            swizzled.setFormat(rank_id, self.getFormat(rank_id))
+
         # For each fiber, reset its active range
-        frontier = [swizzled.getRoot()]
+        frontier = [(swizzled.getRoot(), 0)]
         while frontier:
-            fiber = frontier.pop()
-            rank = fiber.getRankAttrs().getId()
-            rank_ranges = ranges[rank]
+            fiber, depth = frontier.pop()
+            rank_ranges = ranges[guide[depth]] if depth < swiz_len else set()
 
-            if not fiber.isEmpty() and rank_ranges:
-                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
-                start = min(starts)
+            if fiber.coords and rank_ranges:
+                # Elements in a halo may lie in no active range at all
+                first, last = fiber.coords[0], fiber.coords[-1]
+                starts = [start for start, end in rank_ranges if start <= first < end]
+                ends = [end for start, end in rank_ranges if start <= last < end]
 
-                ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
-                end = max(ends)
+                start = min(starts or [start for start, _ in rank_ranges])
+                end = max(ends or [end for _, end in rank_ranges])
 
                 fiber.setActive((start, end))
 
                 if isinstance(fiber.payloads[0], Fiber):
-                    frontier.extend(fiber.payloads)
+                    frontier.extend((payload, depth + 1) for payload in fiber.payloads)
 
         return swizzled
 
-- 
2.43.0


From 5f1d8796a09eaa1418cd3cdb84bdf101fb738937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 16/52] fix: prune stops when told to, project checks its start
 position in the new coordinates

---
 fibertree/core/fiber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 20728c3..c843236 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1117,7 +1117,11 @@ class Fiber:
             def __iter__(self):
                 f_iter = self.fiber.__iter__(tick=False, start_pos=self.start)
                 for i, (c, p) in enumerate(f_iter):
-                    if self.trans(i, c, p):
+                    keep = self.trans(i, c, p)
+                    if keep is None:
+                        break
+
+                    if keep:
                         yield c, p
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
@@ -1327,7 +1331,7 @@ class Fiber:
 
             if interval is not None:
                 assert start_pos == 0 \
-                    or fiber.coords[start_pos - 1] < interval[0]
+                    or trans_fn(fiber.coords[start_pos - 1]) < interval[0]
 
         # Build the iterator
         class project_iterator:
-- 
2.43.0


From 019958a54063b217fea294a42a40c4f06757002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 17/52] fix: the upper level of a split is active from its
 first partition on

---
 fibertree/core/fiber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index c843236..7f3b658 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4086,6 +4086,11 @@ class Fiber:
             upper.coords.append(part)
             upper.payloads.append(lower)
 
+        # The first partition may start before the active range does
+        start, end = upper.getActive()
+        if upper.coords and upper.coords[0] < start:
+            upper.setActive((upper.coords[0], end))
+
         return upper
 
 #
-- 
2.43.0


From 5e64b399edb559456f0561b08b5defc8505baab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 18/52] fix: merges reduce only elements that are there, with
 their default, ranges and shapes; updateCoords keeps ranges valid; equality
 ignores formats; splits and flattens of flattened ranks

---
 fibertree/core/fiber.py  | 142 ++++++++++++++++++++++++++-------------
 fibertree/core/tensor.py |   8 ++-
 2 files changed, 102 insertions(+), 48 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7f3b658..99964d2 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -13,8 +13,8 @@ from sys import exit
 import bisect
 import copy
 import sys
-from functools import partialmethod
-from itertools import product
+from functools import partialmethod, reduce
+from itertools import product, zip_longest
 
 import numbers
 import pickle
@@ -2576,10 +2576,20 @@ class Fiber:
 
         last_coord = None
 
+        active = self._active_range
+        active_valid = True
+
         for i in range(len(self.coords)):
-            new_coord = func(i, self.coords[i], self.payloads[i])
+            old_coord = self.coords[i]
+            new_coord = func(i, old_coord, self.payloads[i])
             self.coords[i] = new_coord
 
+            # Does the active range still hold the coordinates it held?
+            if active is not None and active[0] <= old_coord < active[1]:
+                active_valid = active_valid and \
+                    isinstance(new_coord, type(old_coord)) and \
+                    active[0] <= new_coord < active[1]
+
             no_sort_needed = no_sort_needed and ((last_coord is None) or (last_coord <= new_coord))
             last_coord = new_coord
 
@@ -2599,10 +2609,23 @@ class Fiber:
         if new_rank_id is not None:
             self.getRankAttrs().setId(new_rank_id)
 
+        if not active_valid:
+            self.setActive(None)
+
+        attrs = self.getRankAttrs()
+
         if new_shape is not None:
-            self.getRankAttrs().setShape(new_shape)
+            attrs.setShape(new_shape)
 
-        new_shape = self.getRankAttrs().getShape()
+        elif attrs.getEstimatedShape() and attrs.getShape() is not None:
+            #
+            # An estimated shape covers the new coordinates
+            #
+            estimate = self.estimateShape(all_ranks=False)
+            if isinstance(estimate, type(attrs.getShape())):
+                attrs.setShape(Fiber._maxShape(attrs.getShape(), estimate))
+
+        new_shape = attrs.getShape()
 
         assert new_shape is None or isinstance(new_shape, type(self.coords[0])), \
             "Type of shape must match shape of coordinates"
@@ -4422,20 +4445,33 @@ class Fiber:
         up_shape = self.getShape(all_ranks=False, authoritative=True)
         low_shape = None
 
-        for i, (c1, p1) in enumerate(zip(self.coords, cur_payloads)):
+        #
+        # The lower shape is known only if it is known for all non-empty fibers
+        #
+        low_shapes = []
+        for p1 in cur_payloads:
             if not Payload.contains(p1, Fiber):
                 raise PayloadError
 
-            if i == 0:
-                range_start, range_end = p1.getActive()
-            else:
-                range_start = min(range_start, p1.getActive()[0])
-                range_end = max(range_end, p1.getActive()[1])
+            p1_shape = p1.getShape(all_ranks=False, authoritative=True)
+
+            if p1_shape is not None or p1.coords:
+                low_shapes.append(p1_shape)
+
+        if low_shapes and None not in low_shapes:
+            low_shape = reduce(Fiber._maxShape, low_shapes)
+
+        # A merged fiber that is empty knows neither its range nor its default
+        known = [p1 for p1 in cur_payloads if p1.coords] or cur_payloads[:1]
 
-            default = p1.getDefault()
+        if known:
+            range_start = min(p1.getActive()[0] for p1 in known)
+            range_end = max(p1.getActive()[1] for p1 in known)
+            default = known[0].getDefault()
 
-            low_shape = p1.getShape(all_ranks=False, authoritative=True)
-            for c0, p0 in p1:
+        for c1, p1 in zip(self.coords, cur_payloads):
+            # Only the non-empty elements, whatever the format
+            for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
                                                 style=style,
@@ -4458,31 +4494,33 @@ class Fiber:
         elif up_shape and low_shape:
             if style == "linear":
                 shape = up_shape * low_shape
-            elif style == "pair":
-                shape = (up_shape, low_shape)
-            elif style == "tuple":
-                if isinstance(low_shape, tuple):
-                    shape = (up_shape,) + low_shape
-                else:
-                    shape = (up_shape, low_shape)
-
-
+            else:
+                shape = self._flattenCoords(up_shape, low_shape, style=style)
 
         # Compute the active range
-        active_range = None
-
         if range_start is None:
             range_start = 0
             range_end = float("inf")
 
+        active_start, active_end = self.getActive()
+
         if style == "tuple" or style == "pair":
-            active_range = ((self.getActive()[0], range_start), (self.getActive()[1], range_end))
-        elif style == "relative":
-            active_range = self.getActive()
-        elif style == "absolute":
-            active_range = self.getActive()
+            active_range = (self._flattenCoords(active_start, range_start, style=style),
+                            self._flattenCoords(active_end, range_end, style=style))
         elif style == "linear":
             active_range = (0, float("inf"))
+        else:
+            #
+            # The coordinates of a split lie in the active range of
+            # the fiber that was split, others need not
+            #
+            active_range = (active_start, active_end)
+            if coords:
+                if not isinstance(coords[0], type(active_start)):
+                    active_range = (range_start, range_end)
+                elif coords[0] < active_start or coords[-1] >= active_end:
+                    active_range = (min(active_start, coords[0]),
+                                    max(active_end, Fiber._nextCoord(coords[-1])))
 
         return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)
 
@@ -4501,18 +4539,28 @@ class Fiber:
         if not isinstance(to_merge[0], Fiber):
             return merge_fn(to_merge)
 
-        # Merge fibers together
-        coords = []
-        payloads = []
-        union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
-            coords.append(c)
-            new_merge = Payload.get(ps)[1:]
-            payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
+        # Merge fibers together, only the elements that are there take part
+        elements = {}
+        for fiber in to_merge:
+            for c, p in fiber.iterOccupancy(tick=False):
+                elements.setdefault(c, []).append(p)
 
-        result = Fiber(coords, payloads, active_range=union_fiber.getActive())
-        return result
+        coords = sorted(elements)
+        payloads = [Fiber._mergeToFibertree(elements[c], merge_fn) for c in coords]
+
+        ranges = [fiber.getActive() for fiber in to_merge]
+        shapes = [fiber.getShape(all_ranks=False, authoritative=True) for fiber in to_merge]
 
+        shape = None
+        if None not in shapes:
+            shape = reduce(Fiber._maxShape, shapes)
+
+        return Fiber(coords,
+                     payloads,
+                     default=to_merge[0].getDefault(),
+                     active_range=(min(start for start, _ in ranges),
+                                   max(end for _, end in ranges)),
+                     shape=shape)
 
     def unflattenRanks(self, levels=1):
         """Unflatten a ranks into two or more ranks
@@ -4830,14 +4878,18 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        for c, (mask, ps, po) in self | other:
-            if mask == "A":
-                return False
+        # Note: the format of a fiber does not matter, just its content
+        iters = [iter(f) if f.isLazy() else f.iterOccupancy(tick=False)
+                 for f in (self, other)]
 
-            if mask == "B":
+        for elem_s, elem_o in zip_longest(*iters):
+            if elem_s is None or elem_o is None:
                 return False
 
-            if mask == "AB" and ps != po:
+            cs, ps = elem_s
+            co, po = elem_o
+
+            if cs != co or ps != po:
                 return False
 
         return True
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 8f8668b..241a50f 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1369,9 +1369,10 @@ class Tensor:
 
         # Maintain the formats
         for rank_id in tensor.getRankIds():
-            if rank_id == id + ".1":
+            # (a rank id may be a list)
+            if rank_id == f"{id}.1":
                 old_id = id
-            elif rank_id == id + ".0":
+            elif rank_id == f"{id}.0":
                 old_id = id
             else:
                 old_id = rank_id
@@ -1705,8 +1706,9 @@ class Tensor:
                     new_shape.append(shape)
 
                 # Shape: [S0, S1, ... SN] -> (S0, S1, ... SN)
+                # (a rank that is itself flattened adds all of its shapes)
                 elif coord_style == "tuple":
-                    curr_shape += (shape,)
+                    curr_shape += shape if isinstance(shape, tuple) else (shape,)
                     if i == depth + levels:
                         new_shape.append(curr_shape)
 
-- 
2.43.0


From 766d845909f8b1a6f6dd008ef66ed7e474abad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 19/52] fix: unflattenRanks and nonEmpty copy their operand's
 payloads

---
 fibertree/core/fiber.py  | 17 ++++++++++++-----
 fibertree/core/tensor.py |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 99964d2..199a1ca 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2294,7 +2294,7 @@ class Fiber:
                 if Payload.contains(p, Fiber):
                     payloads.append(p.nonEmpty())
                 else:
-                    payloads.append(p)
+                    payloads.append(copy.deepcopy(p))
 
         return self._newFiber(coords, payloads)
 
@@ -4240,7 +4240,7 @@ class Fiber:
         #
         # Unflatten to get original coordinates in swapped ranks
         #
-        swapped = flattened_sorted.unflattenRanks()
+        swapped = flattened_sorted._unflattenRanks()
 
         return swapped
 
@@ -4595,6 +4595,13 @@ class Fiber:
 
         """
 
+        return copy.deepcopy(self)._unflattenRanks(levels=levels)
+
+    def _unflattenRanks(self, levels=1):
+        """ Unflatten the rank of self
+
+        Warning: this subroutine does NOT deepcopy anything
+        """
         assert not self.isLazy()
         assert all(isinstance(c, tuple) for c in self.coords)
         assert self._ordered and self._unique
@@ -4660,7 +4667,7 @@ class Fiber:
                                       shape=shape0)
 
                     if levels > 1:
-                        cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
+                        cur_fiber = cur_fiber._unflattenRanks(levels=levels - 1)
 
                     payloads1.append(cur_fiber)
 
@@ -4697,7 +4704,7 @@ class Fiber:
             # Conditionally recurse
             #
             if levels > 1:
-                fiber0 = fiber0.unflattenRanks(levels=levels - 1)
+                fiber0 = fiber0._unflattenRanks(levels=levels - 1)
 
             payloads1.append(fiber0)
 
@@ -4805,7 +4812,7 @@ class Fiber:
                                       flattenRanks)
 
     unflattenRanksBelow = partialmethod(updatePayloadsBelow,
-                                        unflattenRanks)
+                                        _unflattenRanks)
 
 #
 # Copy operation
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 241a50f..f558c9b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1786,7 +1786,7 @@ class Tensor:
 
         rank_ids, shape = self._unflattenRankIdsShape(depth, levels, style)
 
-        root = self._modifyRoot(Fiber.unflattenRanks,
+        root = self._modifyRoot(Fiber._unflattenRanks,
                                 Fiber.unflattenRanksBelow,
                                 depth=depth,
                                 levels=levels)
-- 
2.43.0


From 889015ef9f826207188e77c61a5d670a6712ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 20/52] fix: a missing sub-fiber of unknown default keeps the
 default 0, not None

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 199a1ca..56a4745 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1757,7 +1757,7 @@ class Fiber:
                         #
                         value.setOwner(owner.next_rank)
                         value._transient = True
-                else:
+                elif next_default is not None:
                     value._setDefault(next_default)
             else:
                 assert False, "Unsupported Payload type"
-- 
2.43.0


From 7df4f568b879de339b61ca00c403df1773d7f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 21/52] fix: division, reflected/in-place logical operators,
 element assignment; fiber *= fiber drops the rest

---
 fibertree/core/coord_payload.py | 109 ++++++++++++++++++++++++++++++--
 fibertree/core/fiber.py         |  22 +++++--
 fibertree/core/payload.py       |  86 +++++++++++++++++++++++++
 3 files changed, 206 insertions(+), 11 deletions(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..24fcfe8 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,7 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
+
+        return self
 
 
     #
@@ -311,8 +313,8 @@ class CoordPayload():
 
         return self
 
-    def __div__(self, other):
-        """__div__"""
+    def __truediv__(self, other):
+        """__truediv__"""
 
         if isinstance(other, CoordPayload):
             ans = self.payload / other.payload
@@ -321,13 +323,13 @@ class CoordPayload():
 
         return ans
 
-    def __rdiv__(self, other):
-        """__rdiv__"""
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
 
         return other / self.payload
 
-    def __idiv__(self, other):
-        """__idiv__"""
+    def __itruediv__(self, other):
+        """__itruediv__"""
 
         if isinstance(other, CoordPayload):
             self.payload /= other.payload
@@ -336,6 +338,99 @@ class CoordPayload():
 
         return self
 
+    def __floordiv__(self, other):
+        """__floordiv__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload // other.payload
+        else:
+            ans = self.payload // other
+
+        return ans
+
+    def __rfloordiv__(self, other):
+        """__rfloordiv__"""
+
+        return other // self.payload
+
+    def __ifloordiv__(self, other):
+        """__ifloordiv__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload //= other.payload
+        else:
+            self.payload //= other
+
+        return self
+
+
+#
+# Logical operations
+#
+    def __and__(self, other):
+        """__and__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload & other.payload
+        else:
+            ans = self.payload & other
+
+        return ans
+
+    def __rand__(self, other):
+        """__rand__"""
+
+        return other & self.payload
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload &= other.payload
+        else:
+            self.payload &= other
+
+        return self
+
+    def __or__(self, other):
+        """__or__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload | other.payload
+        else:
+            ans = self.payload | other
+
+        return ans
+
+    def __ror__(self, other):
+        """__ror__"""
+
+        return other | self.payload
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload |= other.payload
+        else:
+            self.payload |= other
+
+        return self
+
+    def __lshift__(self, other):
+        """__lshift__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload << other.payload
+        else:
+            ans = self.payload << other
+
+        return ans
+
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        return other << self.payload
 
 #
 # Comparison operations
diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 56a4745..fe95da0 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3236,7 +3236,7 @@ class Fiber:
         else:
             for c, p in self.iterShape():
                 coords.append(c)
-                payloads.append(other + p.value)
+                payloads.append(other + Payload.get(p))
 
         return self._newFiber(coords, payloads)
 
@@ -3375,7 +3375,7 @@ class Fiber:
         else:
             for c, p in self:
                 coords.append(c)
-                payloads.append(other * p.value)
+                payloads.append(other * Payload.get(p))
 
         result = self._newFiber(coords, payloads)
         return result
@@ -3443,14 +3443,28 @@ class Fiber:
         # If `other` is a fiber, elementwise multiply `other` by `self`
         #
         if isinstance(other, Fiber):
-            for c, (self_val, other_val) in self & other:
+            product = []
+            for c, (_, other_val) in self & other:
                 #
                 # Get a reference to the c coordinate in `self`.  Note
                 # that is may be a zero and therefore a hard zero will
                 # be included in the final fiber.
                 #
                 self_ref = self.getPayloadRef(c)
-                self_ref <<= self_val * other_val
+                self_ref *= other_val
+                product.append((c, self_ref))
+
+            #
+            # Elements outside the intersection are not in the product
+            #
+            kept = set(c for c, _ in product)
+            dropped = [p for c, p in zip(self.coords, self.payloads) if c not in kept]
+
+            self.coords = [c for c, _ in product]
+            self.payloads = [p for _, p in product]
+
+            for p in dropped:
+                self._leaveRank(p)
 
             return self
 
diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..6b2d9e5 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -534,6 +534,50 @@ class Payload:
 
         return Payload(ans)
 
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other / self.value)
+
+
+    def __itruediv__(self, other):
+        """__itruediv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value / other.value
+        else:
+            self.value = self.value / other
+        return self
+
+
+    def __floordiv__(self, other):
+        """__floordiv__"""
+
+        if isinstance(other, Payload):
+            ans = self.value // other.value
+        else:
+            ans = self.value // other
+
+        return Payload(ans)
+
+    def __rfloordiv__(self, other):
+        """__rfloordiv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other // self.value)
+
+
+    def __ifloordiv__(self, other):
+        """__ifloordiv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value // other.value
+        else:
+            self.value = self.value // other
+        return self
+
+
     def __rmul__(self, other):
         """__rmul__"""
 
@@ -629,6 +673,23 @@ class Payload:
         return Payload(ans)
 
 
+    def __rand__(self, other):
+        """__rand__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other & self.value)
+
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value & other.value
+        else:
+            self.value = self.value & other
+        return self
+
+
     def __or__(self, other):
         """__or__"""
 
@@ -640,6 +701,23 @@ class Payload:
         return Payload(ans)
 
 
+    def __ror__(self, other):
+        """__ror__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other | self.value)
+
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value | other.value
+        else:
+            self.value = self.value | other
+        return self
+
+
     def __lshift__(self, other):
         """__lshift__"""
 
@@ -650,6 +728,14 @@ class Payload:
 
         return Payload(ans)
 
+
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other << self.value)
+
+
 #
 # Copy operation
 #
-- 
2.43.0


From d5a337dc4878a085819554e395453d0b42ff9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 22/52] fix: YAML and dictionary forms keep defaults, shapes,
 names and tuples; uncompress empty trees; shape of long nests

---
 fibertree/core/fiber.py   | 93 ++++++++++++++++++++++++++++-----------
 fibertree/core/payload.py |  6 +--
 fibertree/core/tensor.py  | 48 +++++++++++++-------
 3 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index fe95da0..752bc49 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -342,14 +342,23 @@ class Fiber:
         yamlfile: str
             The name of a YAML file holding a description of a fiber
 
+        default: value, default=0
+            Default payload value, if the file does not hold one
+
         kwargs: keyword arguments
             Keyword arguments accepted by `Fiber.__init__()`
 
         """
 
-        (coords, payloads) = Fiber.parse(yamlfile, default)
+        fiber = Fiber.parse(yamlfile, default)
+        attrs = fiber.getRankAttrs()
+
+        kwargs.setdefault("shape", attrs.getShape())
 
-        return cls(coords, payloads, default=default, **kwargs)
+        return cls(fiber.getCoords(),
+                   fiber.getPayloads(),
+                   default=attrs.getDefault(),
+                   **kwargs)
 
 
     @classmethod
@@ -3089,17 +3098,10 @@ class Fiber:
         """Recursive fill empty"""
 
         if level + 1 > len(shape):
-            #
-            # Find a fiber at the leaf level
-            #
-            f = self
-            while isinstance(f.payloads[0], Fiber):
-                f = f.payloads[0]
-
             #
             # Use the **unboxed** default from the leaf level fiber
             #
-            return Payload.get(f.getDefault())
+            return Payload.get(self._leafDefault())
 
         f = []
 
@@ -3108,6 +3110,31 @@ class Fiber:
 
         return f
 
+    def _leafDefault(self):
+        """Default of the leaf level of the tree under this fiber"""
+
+        owner = self.getOwner()
+
+        if owner is not None:
+            while owner.getNextRank() is not None:
+                owner = owner.getNextRank()
+
+            return owner.getDefault()
+
+        #
+        # Without an owner only a leaf level fiber knows the default
+        #
+        default = self.getDefault()
+
+        for p in self.payloads:
+            if isinstance(p, Fiber):
+                default = p._leafDefault()
+                if p.payloads:
+                    break
+
+        return default if not callable(Payload.get(default)) else 0
+
+
 #
 # Arithmetic operations
 #
@@ -5089,7 +5116,8 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                # Note: the full loader knows tuples (e.g., coordinates)
+                y_file = yaml.load(stream, Loader=yaml.FullLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
@@ -5101,10 +5129,7 @@ class Fiber:
             print("Yaml is not a fiber")
             exit(1)
 
-        newfiber = Fiber.dict2fiber(y_file)
-
-        return (newfiber.getCoords(), newfiber.getPayloads())
-
+        return Fiber.dict2fiber(y_file, default=default)
 
 
     def dump(self, yamlfile):
@@ -5120,8 +5145,11 @@ class Fiber:
 #
 
     @staticmethod
-    def dict2fiber(y_payload_dict, level=0):
-        """Parse a yaml-based tensor payload, creating Fibers as appropriate"""
+    def dict2fiber(y_payload_dict, level=0, default=0):
+        """Parse a yaml-based tensor payload, creating Fibers as appropriate
+
+        The `default` is used for fibers that do not hold one.
+        """
 
         if isinstance(y_payload_dict, dict) and 'fiber' in y_payload_dict:
             # Got a fiber, so need to get into the Fiber class
@@ -5151,11 +5179,14 @@ class Fiber:
 
             f_payloads = []
             for y_f_payload in y_f_payloads:
-                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
+                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1, default))
             #
             # Turn into a fiber
             #
-            subtree = Fiber(coords=f_coords, payloads=f_payloads)
+            subtree = Fiber(coords=f_coords,
+                            payloads=f_payloads,
+                            default=y_fiber.get('default', default),
+                            shape=y_fiber.get('shape'))
         else:
             # Got scalars, so format is unchanged
             subtree = y_payload_dict
@@ -5164,15 +5195,27 @@ class Fiber:
 
 
 
-    def fiber2dict(self):
-        """Return dictionary with fiber information"""
+    def fiber2dict(self, attrs=True):
+        """Return dictionary with fiber information
+
+        The shape and default of the fibers are included where needed
+        to recreate them, unless `attrs` is False.
+        """
         assert not self.isLazy()
 
-        f = {'fiber':
-             {'coords': self.coords,
-              'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
+        f = {'coords': list(self.coords),
+             'payloads': [Payload.payload2dict(p, attrs) for p in self.payloads]}
 
-        return f
+        if attrs:
+            shape = self.getShape(all_ranks=False, authoritative=True)
+            if shape is not None:
+                f['shape'] = shape
+
+            default = Payload.get(self.getDefault())
+            if not callable(default) and default != 0:
+                f['default'] = default
+
+        return {'fiber': f}
 
 #
 # Utility functions
diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 6b2d9e5..536f122 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -753,17 +753,17 @@ class Payload:
 #
 
     @staticmethod
-    def payload2dict(payload):
+    def payload2dict(payload, attrs=True):
         """Return payload converted to dictionry or simple value"""
 
         from .fiber import Fiber
 
         if isinstance(payload, Fiber):
             # Note: this leg is deprecated and should be removed
-            return payload.fiber2dict()
+            return payload.fiber2dict(attrs)
         elif isinstance(payload, Payload):
             if Payload.contains(payload, Fiber):
-                return payload.value.fiber2dict()
+                return payload.value.fiber2dict(attrs)
             else:
                 return payload.value
         else:
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index f558c9b..47ec86b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -136,7 +136,8 @@ class Tensor:
         if (yamlfile != ""):
             assert(rank_ids is None and shape is None)
 
-            (rank_ids, root, shape, name) = self.parse(yamlfile)
+            (rank_ids, root, shape, name, default) = self.parse(yamlfile,
+                                                                default)
 
             if shape is None:
                 shape = root.estimateShape()
@@ -235,7 +236,7 @@ class Tensor:
         YAML file does not provide a non-zero default value
 
         """
-        (rank_ids, root, shape, name) = Tensor.parse(yamlfile)
+        (rank_ids, root, shape, name, default) = Tensor.parse(yamlfile)
 
         if not isinstance(root, Fiber):
             t = Tensor(rank_ids=[], shape=shape, name=name)
@@ -243,7 +244,11 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids,
+                                root,
+                                shape=shape,
+                                name=name,
+                                default=default)
 
 
     @classmethod
@@ -310,14 +315,8 @@ class Tensor:
         if not isinstance(ll[0], list):
             return shape
 
-        if len(ll) == 1:
-            shape.extend(Tensor._calc_shape(ll[0]))
-            return shape
-
-        ll0 = Tensor._calc_shape(ll[0])
-        ll1 = Tensor._calc_shape(ll[1:])[1:]
-        rest = [max(a, b) for a, b in zip(ll0, ll1)]
-        shape.extend(rest)
+        rests = [Tensor._calc_shape(l) for l in ll]
+        shape.extend(max(sizes) for sizes in zip(*rests))
 
         return shape
 
@@ -1954,12 +1953,16 @@ class Tensor:
 #
 
     @staticmethod
-    def parse(file):
-        """Parse a yaml file containing a tensor"""
+    def parse(file, default=0):
+        """Parse a yaml file containing a tensor
+
+        The `default` is used if the file does not hold one.
+        """
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                # Note: the full loader knows tuples (e.g., coordinates)
+                y_file = yaml.load(stream, Loader=yaml.FullLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
@@ -1999,6 +2002,12 @@ class Tensor:
             # TBD: Maybe extract something from filename
             name = ""
 
+        #
+        # Get default value of the leaf rank
+        #
+        if 'default' in y_tensor:
+            default = y_tensor['default']
+
         #
         # Make sure key "root" exists
         #
@@ -2012,9 +2021,9 @@ class Tensor:
         # Generate the tree recursively
         #   Note: fibers are added into self.ranks inside method
         #
-        fiber = Fiber.dict2fiber(y_root[0])
+        fiber = Fiber.dict2fiber(y_root[0], default=default)
 
-        return (rank_ids, fiber, shape, name)
+        return (rank_ids, fiber, shape, name, default)
 
 
     def dump(self, filename):
@@ -2025,7 +2034,7 @@ class Tensor:
         if isinstance(root, Payload):
             root_dict = Payload.payload2dict(root)
         else:
-            root_dict = root.fiber2dict()
+            root_dict = root.fiber2dict(attrs=False)
 
         tensor_dict = {'tensor':
                        {'rank_ids': self.getRankIds(),
@@ -2033,6 +2042,11 @@ class Tensor:
                         'name': self.getName(),
                         'root': [root_dict]}}
 
+        if self.ranks:
+            default = Payload.get(self.getDefault())
+            if default != 0:
+                tensor_dict['tensor']['default'] = default
+
         with open(filename, 'w') as file:
             yaml.dump(tensor_dict, file)
 
-- 
2.43.0


From 46ae3eabf45053d150e803126b097efbead79458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 23/52] fix: load rank-0 tensors by constructor; leaf default
 of trees with empty branches

---
 fibertree/core/fiber.py  | 16 +++++++++-------
 fibertree/core/tensor.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 752bc49..a204db4 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3101,7 +3101,8 @@ class Fiber:
             #
             # Use the **unboxed** default from the leaf level fiber
             #
-            return Payload.get(self._leafDefault())
+            default = Payload.get(self._leafDefault())
+            return default if default is not None else 0
 
         f = []
 
@@ -3126,14 +3127,15 @@ class Fiber:
         #
         default = self.getDefault()
 
-        for p in self.payloads:
-            if isinstance(p, Fiber):
-                default = p._leafDefault()
-                if p.payloads:
-                    break
+        if not callable(Payload.get(default)):
+            return default
 
-        return default if not callable(Payload.get(default)) else 0
+        for p in self.payloads:
+            default = p._leafDefault()
+            if default is not None:
+                return default
 
+        return None
 
 #
 # Arithmetic operations
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 47ec86b..c0c0feb 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -139,11 +139,17 @@ class Tensor:
             (rank_ids, root, shape, name, default) = self.parse(yamlfile,
                                                                 default)
 
-            if shape is None:
+            if shape is None and isinstance(root, Fiber):
                 shape = root.estimateShape()
 
-            self.setRankInfo(rank_ids, shape, default)
-            self.setRoot(root)
+            if isinstance(root, Fiber):
+                self.setRankInfo(rank_ids, shape, default)
+                self.setRoot(root)
+            else:
+                # A rank zero tensor, i.e., just a payload
+                self.setRankInfo([], [])
+                self._root = Payload(root)
+
             self.setName(name)
             self.setColor(color)
             self.setMutable(False)
-- 
2.43.0


From 20b669f81f9b966e104a1d1d1ceaded6da44f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 24/52] fix: renaming or reshaping the rank of an empty fiber;
 shape of a rank without fibers

---
 fibertree/core/fiber.py | 32 ++++++++++++++++++++++++++++----
 fibertree/core/rank.py  |  3 ++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a204db4..e3c739a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2562,13 +2562,14 @@ class Fiber:
 
         assert not self.isLazy()
 
-        if len(self.coords) == 0:
-            # Nothing to do
-            return None
-
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
+        if len(self.coords) == 0:
+            # No coordinates to update, just the rank's attributes
+            self._updateEmptyCoords(depth, new_shape, new_rank_id)
+            return None
+
         if depth > 0:
             # Recurse down to depth...
             for p in self.payloads:
@@ -2642,6 +2643,29 @@ class Fiber:
         return None
 
 
+    def _updateEmptyCoords(self, depth, new_shape, new_rank_id):
+        """Give the rank `depth` levels below an empty fiber its new attributes"""
+
+        if depth == 0:
+            attrs = self.getRankAttrs()
+
+        else:
+            rank = self.getOwner()
+            for _ in range(depth):
+                rank = rank.getNextRank() if rank is not None else None
+
+            if rank is None:
+                return
+
+            attrs = rank.getAttrs()
+
+        if new_rank_id is not None:
+            attrs.setId(new_rank_id)
+
+        if new_shape is not None:
+            attrs.setShape(new_shape)
+
+
     def updatePayloads(self, func, depth=0, rankid=None):
         """Update the values of the payloads of a fiber
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index 7b6cebc..2f16d08 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -223,7 +223,8 @@ class Rank:
                 # We do not actually know the shape, but we can estimate it
                 #
                 return reduce(Fiber._maxShape,
-                              [f.estimateShape(all_ranks=False) for f in self.fibers])
+                              [f.estimateShape(all_ranks=False) for f in self.fibers],
+                              0)
 
             return self._attrs.getShape()
 
-- 
2.43.0


From 23094db98a283b2a5358f7f61a72b957f7d29fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 25/52] fix: co-iteration with ^, - and union() ticks the loop
 rank once per loop body

---
 fibertree/core/iterators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index ead76cf..6b68e3c 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -607,7 +607,7 @@ def union(*args):
         num_args = len(args)
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -1026,8 +1026,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1367,8 +1367,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From ff0f49ca288356d3675a49a659551395f62c0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 26/52] fix: dense iteration is traced, random accesses and
 shape queries do not disturb the loop's trace state

---
 fibertree/core/fiber.py     | 38 +++++++++++++++++++++++++++++--------
 fibertree/core/iterators.py | 25 ++++++++++++++++++++++++
 fibertree/core/metrics.py   | 38 ++++++++++++++++++++++++++++++++++++-
 3 files changed, 92 insertions(+), 9 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index e3c739a..8ea403e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -854,7 +854,9 @@ class Fiber:
             payload = Payload.maybe_box(default)
             const_used = True
 
-        if Metrics.isCollecting() and trace is not None:
+        traced = Metrics.isCollecting() and trace is not None
+        if traced:
+            point = Metrics.getPoint()
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if not const_used and len(coords) > 1:
@@ -862,10 +864,19 @@ class Fiber:
                 "getPayload too many coordinates"
 
             # Recurse to the next level's fiber
-            return payload.getPayload(*coords[1:],
-                                      default=default,
-                                      allocate=allocate,
-                                      trace=trace)
+            payload = payload.getPayload(*coords[1:],
+                                         default=default,
+                                         allocate=allocate,
+                                         trace=trace)
+
+            # A random access does not move the loops
+            if traced:
+                Metrics.setPoint(point)
+
+            return payload
+
+        if traced:
+            Metrics.setPoint(point)
 
         if start_pos is not None:
             if existing or index == 0:
@@ -928,14 +939,25 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
-        if Metrics.isCollecting():
+        traced = Metrics.isCollecting() and trace is not None
+        if traced:
+            point = Metrics.getPoint()
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if len(coords) > 1:
             # Recurse to the next level's fiber
             assert Payload.contains(payload, Fiber), "Too many coordinates"
 
-            return payload.getPayloadRef(*coords[1:], trace=trace)
+            payload = payload.getPayloadRef(*coords[1:], trace=trace)
+
+            # A random access does not move the loops
+            if traced:
+                Metrics.setPoint(point)
+
+            return payload
+
+        if traced:
+            Metrics.setPoint(point)
 
         if start_pos is not None:
             self.setSavedPos(index, distance=index - start_pos)
@@ -2792,7 +2814,7 @@ class Fiber:
             if shape and all_ranks:
                 # Not authoritative
                 rest = []
-                for _, p in self:
+                for _, p in self.__iter__(tick=False):
                     if not isinstance(p, Fiber):
                         continue
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 6b68e3c..81f5f18 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -217,9 +217,14 @@ def iterRangeShape(self, start, end, step=1, tick=True):
 
     if is_collecting and tick:
         Metrics.registerRank(rank)
+        base = _get_base(self, start)
 
     for c in range(start, end, step):
         p = self.getPayload(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, c - base)
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -251,9 +256,14 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
 
     if is_collecting and tick:
         Metrics.registerRank(rank)
+        base = _get_base(self, start)
 
     for c in range(start, end, step):
         p = self.getPayloadRef(c)
+
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, c - base)
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -263,6 +273,21 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
         Metrics.endIter(rank)
 
 
+def _get_base(fiber, start):
+    """Get the coordinate at position 0 of the traversed (uncompressed) fiber
+
+    Parameters
+    ----------
+    fiber: Fiber
+        The fiber being iterated over
+
+    start: int
+        The first coordinate of the traversal
+    """
+    base = fiber.getActive()[0]
+
+    return base if base <= start else 0
+
 def _prep_metrics_inc(fiber):
     """Prepare to do a metrics increment
 
diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 396df81..914e179 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -80,7 +80,8 @@ class Metrics:
         assert cls.collecting
         assert rank in cls.line_order or rank in cls.rank_matches
 
-        if isinstance(coord, tuple):
+        # Note: a rank without an associated shape cannot be traced
+        if isinstance(coord, tuple) and (rank in cls.rank_flatten or rank in cls.traces):
             coord = cls.rank_flatten[rank](coord)
 
         # Update the point
@@ -297,6 +298,21 @@ class Metrics:
         """
         return cls.iteration
 
+    @classmethod
+    def getPoint(cls):
+        """Get a copy of the current point
+
+        Returns
+        -------
+
+        point: List[int]
+            The current coordinate of each of the registered ranks
+
+        """
+        assert cls.collecting
+
+        return cls.point.copy()
+
     @classmethod
     def getIndex(cls, rank):
         """Get the index in the line order of this rank
@@ -554,6 +570,26 @@ class Metrics:
 
         cls.num_cached_uses = num_cached_uses
 
+    @classmethod
+    def setPoint(cls, point):
+        """Set the current point, e.g., to the one before a random access
+
+        Parameters
+        ----------
+
+        point: List[int]
+            The current coordinate of each of the registered ranks
+
+        Returns
+        -------
+
+        None
+
+        """
+        assert cls.collecting
+
+        cls.point = point
+
     @classmethod
     def _startTrace(cls, rank, type_="iter"):
         """Start to trace the given rank
-- 
2.43.0


From a1f2e4d998d451a7a87c66f2ddf78c687b78c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 27/52] fix: Compute.numOps of a session without payload
 operations is 0

---
 fibertree/model/compute.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..4f8d859 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,10 +35,7 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
-            return dump["Compute"][metric]
-        else:
-            return 0
+        return dump.get("Compute", {}).get(metric, 0)
 
     @staticmethod
     def numSwaps(tensor, depth, radix, next_latency):
-- 
2.43.0


From dc220cb2a2cce9e7851b90dc51cfb858e64ca671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 28/52] fix: ranks matched after the loop rank is registered
 are linked to it; traces never keep rows or headers of earlier registrations

---
 fibertree/core/metrics.py | 62 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 914e179..806d901 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -507,6 +507,40 @@ class Metrics:
         for rank in all_matches:
             cls.all_rank_matches[rank] = all_matches.difference({rank})
 
+        # One of the matched ranks may already be in the loop order
+        for rank in reversed(cls.loop_order or []):
+            if rank in all_matches:
+                cls._linkMatches(all_matches - set(cls.rank_matches), rank)
+                break
+
+    @classmethod
+    def _linkMatches(cls, src_ranks, rank):
+        """Associate ranks with the rank in the loop order they match
+
+        Parameters
+        ----------
+
+        src_ranks: Set[str]
+            The ranks matched with `rank`
+
+        rank: str
+            The rank in the loop order
+
+        Returns
+        -------
+
+        None
+        """
+        for src_rank in src_ranks:
+            if src_rank in cls.line_order:
+                continue
+
+            cls.rank_matches[src_rank] = rank
+
+            if src_rank in cls.traces.keys():
+                for type_ in cls.traces[src_rank]:
+                    cls._startTrace(src_rank, type_)
+
     @classmethod
     def registerRank(cls, rank):
         """Register a rank as a part of the loop order
@@ -539,15 +573,7 @@ class Metrics:
             for type_ in cls.traces[rank]:
                 cls._startTrace(rank, type_)
 
-        for src_rank, dst_ranks in cls.all_rank_matches.items():
-            if rank not in dst_ranks:
-                continue
-
-            cls.rank_matches[src_rank] = rank
-
-            if src_rank in cls.traces.keys():
-                for type_ in cls.traces[src_rank]:
-                    cls._startTrace(src_rank, type_)
+        cls._linkMatches(cls.all_rank_matches.get(rank, set()), rank)
 
     @classmethod
     def setNumCachedUses(cls, num_cached_uses):
@@ -616,9 +642,15 @@ class Metrics:
         else:
             end = cls.line_order[cls.rank_matches[rank]] + 1
 
-        file_trace, mem_trace, _ = cls.traces[rank][type_]
+        file_trace, mem_trace, is_started = cls.traces[rank][type_]
         cls.traces[rank][type_] = (file_trace, mem_trace, True)
 
+        # The rank may have been started before as the match of another rank
+        if is_started:
+            for trace in (file_trace, mem_trace):
+                if trace is not None and len(trace) == 1:
+                    trace.clear()
+
         if file_trace is not None:
             with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
                 f.write("")
@@ -672,6 +704,10 @@ class Metrics:
         else:
             cls.traces[rank][type_] = ([], mem_trace, is_started)
 
+        # If the rank is already in the loop order, no one else will start it
+        if not is_started and (rank in cls.line_order or rank in cls.rank_matches):
+            cls._startTrace(rank, type_)
+
     @classmethod
     def _writeTrace(cls, rank, type_):
         """Write the trace to the file
@@ -691,11 +727,13 @@ class Metrics:
         None
 
         """
-        file_trace, mem_trace, _ = cls.traces[rank][type_]
+        file_trace, mem_trace, is_started = cls.traces[rank][type_]
         assert file_trace is not None
 
         trace_strs = [",".join(str(val) for val in line) + "\n" for line in file_trace]
-        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "a") as f:
+        # Never add to the trace of an earlier collection
+        mode = "a" if is_started else "w"
+        with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", mode) as f:
             f.write("".join(trace_strs))
 
         cls.traces[rank][type_] = ([], mem_trace, True)
-- 
2.43.0


From d25303890e3d69f278af19c32afff72d590c7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 29/52] fix: trace positions index the fiber even if it stores
 empty elements or is projected in reverse; project traces its last element

---
 fibertree/core/fiber.py     | 14 +++++--
 fibertree/core/iterators.py | 73 ++++++++++++++++++++++++++++++-------
 2 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 8ea403e..bd1cdbb 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -26,7 +26,7 @@ from .any import Any
 from .coord_payload import CoordPayload
 from .iterators import coiterShape, coiterShapeRef, coiterActiveShape, \
     coiterActiveShapeRef, coiterRangeShape, coiterRangeShapeRef, intersection, \
-    union
+    union, _get_pos
 from .metrics import Metrics
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -1367,6 +1367,7 @@ class Fiber:
         # Build the iterator
         class project_iterator:
             fbr = fiber
+            src = self
             tck = tick
             trans = lambda self, c: trans_fn(c)
             interv = interval
@@ -1409,11 +1410,15 @@ class Fiber:
 
                     if self.interv is None \
                             or (c >= self.interv[0] and c < self.interv[1]):
+                        # Trace the access before the element is used, since
+                        # the consumer may never ask for another one
+                        if traced:
+                            Metrics.addUse(src_rank, old_c, _get_pos(self.src, old_c, i + j),
+                                type_=trace, iteration_num=iteration)
+
                         yield c, p
 
                         if traced:
-                            Metrics.addUse(src_rank, old_c, i + j,
-                                type_=trace, iteration_num=iteration)
                             iteration = Metrics.getIter().copy()
 
         if interval:
@@ -4832,7 +4837,8 @@ class Fiber:
         rank = self.getRankAttrs().getId()
         depth = Metrics.getIndex(rank)
         for i, (c, p) in enumerate(self.__iter__(tick=False)):
-            Metrics.addUse(rank, c, i, type_=trace_type, iteration_num=iteration_num)
+            Metrics.addUse(rank, c, _get_pos(self, c, i), type_=trace_type,
+                           iteration_num=iteration_num)
 
             # Recurse down the tree
             if isinstance(p, Fiber):
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 81f5f18..27c7989 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -288,6 +288,37 @@ def _get_base(fiber, start):
 
     return base if base <= start else 0
 
+def _get_pos(fiber, coord, count):
+    """Get the position of an element in the fiber it was read from
+
+    Parameters
+    ----------
+    fiber: Fiber
+        The fiber being iterated over
+
+    coord: coordinate
+        The coordinate of the element
+
+    count: int
+        The number of elements the fiber presented before this one
+
+    Returns
+    -------
+    pos: int
+        The position of the element. Note that the elements a compressed
+        fiber presents do not include the empty ones it stores
+    """
+    if fiber.isLazy():
+        return count
+
+    if fiber.getRankAttrs().getFormat() == "U":
+        return coord - fiber.getActive()[0]
+
+    if not fiber.isOrdered():
+        return fiber.coords.index(coord)
+
+    return bisect.bisect_left(fiber.coords, coord)
+
 def _prep_metrics_inc(fiber):
     """Prepare to do a metrics increment
 
@@ -567,7 +598,8 @@ def intersection(*args, **kwargs):
 
                 for i, (c, p) in enumerate(self.fibers[0].__iter__(tick=False)):
                     if leader_traced:
-                        Metrics.addUse(rank, c, i, type_=traces[0])
+                        Metrics.addUse(rank, c, _get_pos(self.fibers[0], c, i),
+                            type_=traces[0])
 
                     payloads = [p]
                     for j, fiber in enumerate(self.fibers[1:]):
@@ -801,11 +833,13 @@ def __and__(self, other):
                 if a_coord == b_coord:
 
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                            type_=a_trace)
                         a_pos += 1
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
                         b_pos += 1
 
                     yield succ_yield(a_coord, b_coord), (a_payload, b_payload)
@@ -817,7 +851,8 @@ def __and__(self, other):
 
                 if a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                            type_=a_trace)
                         a_pos += 1
 
                     if is_collecting:
@@ -829,7 +864,8 @@ def __and__(self, other):
 
                 if a_coord > b_coord:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
                         b_pos += 1
 
                     if is_collecting:
@@ -840,10 +876,12 @@ def __and__(self, other):
                     continue
 
             if a_traced and a_coord is not None:
-                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                    type_=a_trace)
 
             if b_traced and b_coord is not None:
-                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                    type_=b_trace)
 
             if is_collecting:
                 Metrics.incIter(rank)
@@ -941,11 +979,13 @@ def __or__(self, other):
             while a_coord is not None and b_coord is not None:
                 if a_coord == b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                            type_=a_trace)
                         a_pos += 1
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
                         b_pos += 1
 
                     yield a_coord, ("AB", a_payload, b_payload)
@@ -957,7 +997,8 @@ def __or__(self, other):
 
                 elif a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                            type_=a_trace)
                         a_pos += 1
 
                     b_default = self.b_fiber._createDefault(addtorank=False)
@@ -967,7 +1008,8 @@ def __or__(self, other):
                 # a_coord > b_coord
                 else:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
                         b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
@@ -976,7 +1018,8 @@ def __or__(self, other):
 
             while a_coord is not None:
                 if a_traced:
-                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                    Metrics.addUse(rank, a_coord, _get_pos(self.a_fiber, a_coord, a_pos),
+                        type_=a_trace)
                     a_pos += 1
 
                 b_default = self.b_fiber._createDefault(addtorank=False)
@@ -985,7 +1028,8 @@ def __or__(self, other):
 
             while b_coord is not None:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
                         b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
@@ -1201,7 +1245,8 @@ def __lshift__(self, other, start_pos=None):
 
                     # Read the B coordinate
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord, _get_pos(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
 
                     # If we are inserting into a compressed fiber, we need
                     # to search for the coordinate
-- 
2.43.0


From 12f4e35cabadb087a2b6bef2eb92bf3015d279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 30/52] fix: collecting metrics on an inserting populate needs
 no destination shape; its read trace does not depend on the write trace

---
 fibertree/core/iterators.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 27c7989..436fb3d 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1241,7 +1241,11 @@ def __lshift__(self, other, start_pos=None):
                     a_max = self.a_fiber.maxCoord()
                     if b_pos == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
-                        assert insert_pos is not None
+
+                        # Without a known shape, stage the new elements beyond
+                        # the coordinates in use
+                        if insert_pos is None:
+                            insert_pos = self.a_fiber.getShape(all_ranks=False)
 
                     # Read the B coordinate
                     if b_traced:
@@ -1326,7 +1330,7 @@ def __lshift__(self, other, start_pos=None):
 
                 # If this is a new payload, we may have to track the
                 # insert/append
-                elif a_write_traced:
+                elif a_read_traced or a_write_traced:
                     # If we just inserted into a compressed fiber, save the
                     # relevant information
                     if inserting and new_a_payload:
@@ -1341,16 +1345,17 @@ def __lshift__(self, other, start_pos=None):
                         write_pos = a_pos - len(to_insert)
 
                     # Write the new value
-                    iteration[Metrics.getIndex(rank)] += 1
-                    Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
-                        iteration_num=iteration)
-                    Metrics.incIter(rank)
+                    if a_write_traced:
+                        iteration[Metrics.getIndex(rank)] += 1
+                        Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
+                            iteration_num=iteration)
+                        Metrics.incIter(rank)
 
                 a_pos += 1
 
             # Finally, if we were inserting, move everything to the appropriate
             # location
-            if inserting and len(to_insert) > 0 and (a_read_traced or a_write_traced):
+            if len(to_insert) > 0:
                 iteration = list(iteration)
                 for i, (c, p) in enumerate(reversed(list(self.a_fiber.iterOccupancy(
                                         tick=False, start_pos=insert_start_pos)))):
-- 
2.43.0


From 19a354ddbfb4986853584d76e1fa63bb6f30b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 31/52] fix: every in-place payload operator counts as an
 update

---
 fibertree/core/payload.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 536f122..6271265 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -507,6 +507,11 @@ class Payload:
             self.value = self.value - other.value
         else:
             self.value = self.value - other
+
+        # Collect metrics
+        if Metrics.isCollecting():
+            Metrics.incCount("Compute", "payload_update", 1)
+
         return self
 
 
@@ -548,6 +553,11 @@ class Payload:
             self.value = self.value / other.value
         else:
             self.value = self.value / other
+
+        # Collect metrics
+        if Metrics.isCollecting():
+            Metrics.incCount("Compute", "payload_update", 1)
+
         return self
 
 
@@ -575,6 +585,11 @@ class Payload:
             self.value = self.value // other.value
         else:
             self.value = self.value // other
+
+        # Collect metrics
+        if Metrics.isCollecting():
+            Metrics.incCount("Compute", "payload_update", 1)
+
         return self
 
 
@@ -687,6 +702,11 @@ class Payload:
             self.value = self.value & other.value
         else:
             self.value = self.value & other
+
+        # Collect metrics
+        if Metrics.isCollecting():
+            Metrics.incCount("Compute", "payload_update", 1)
+
         return self
 
 
@@ -715,6 +735,11 @@ class Payload:
             self.value = self.value | other.value
         else:
             self.value = self.value | other
+
+        # Collect metrics
+        if Metrics.isCollecting():
+            Metrics.incCount("Compute", "payload_update", 1)
+
         return self
 
 
-- 
2.43.0


From 64246591dad104c8918746d196957e86727833bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 32/52] fix: the defaults of lazy fibers keep the rank, format
 and shape of their operands' lower ranks

---
 fibertree/core/fiber.py     | 12 ++++++++++++
 fibertree/core/iterators.py |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bd1cdbb..7fca109 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -252,6 +252,9 @@ class Fiber:
         #
         self._transient = False
 
+        # For a lazy fiber, a function creating what an absent element holds
+        self._absent = None
+
         # Create a rank_attrs
         if rank_attrs is not None:
             self.setRankAttrs(rank_attrs)
@@ -1157,6 +1160,7 @@ class Fiber:
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
+        result._absent = lambda: self._createDefault(addtorank=False)
         result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         result.getRankAttrs().setId(self.getRankAttrs().getId())
 
@@ -1433,6 +1437,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result._absent = lambda: self._createDefault(addtorank=False)
         result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
@@ -1688,6 +1693,13 @@ class Fiber:
 
         """
 
+        #
+        # An absent element of a lazy fiber is an absent element of the
+        # fiber(s) it is computed from
+        #
+        if self._absent is not None:
+            return Payload.maybe_box(self._absent())
+
         owner = self.getOwner()
 
         default = self.getDefault()
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 436fb3d..ff0e3a0 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -688,6 +688,8 @@ def union(*args):
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
     fiber._setDefault(tuple([""]+[arg.getDefault() for arg in args]))
+    fiber._absent = lambda: tuple(
+        [Payload("")] + [arg._createDefault(addtorank=False) for arg in args])
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 #
@@ -1038,6 +1040,9 @@ def __or__(self, other):
 
     result = self.fromIterator(or_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._absent = lambda: (Payload(""),
+                              self._createDefault(addtorank=False),
+                              other._createDefault(addtorank=False))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1129,6 +1134,9 @@ def __xor__(self, other):
 
     result = self.fromIterator(xor_iterator, active_range=self.getActive())
     result._setDefault(("", self.getDefault(), other.getDefault()))
+    result._absent = lambda: (Payload(""),
+                              self._createDefault(addtorank=False),
+                              other._createDefault(addtorank=False))
     result.getRankAttrs().setId(self.getRankAttrs().getId())
 
     return result
@@ -1467,6 +1475,7 @@ def __sub__(self, other):
 
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
+    result._absent = lambda: self._createDefault(addtorank=False)
     result.getRankAttrs().setId(self.getRankAttrs().getId())
     result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
-- 
2.43.0


From 817fd70c54ee2e60248526066dc2ee0ca1c97740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 33/52] fix: an operation of a payload and a fiber element is
 counted once

---
 fibertree/core/payload.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 6271265..6449cbe 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -381,12 +381,25 @@ class Payload:
         """__repr__"""
 
         return f"Payload({self.value.__repr__()})"
+    @staticmethod
+    def _elementPayload(operand):
+        """The payload of an element (a `CoordPayload`) used as an operand,
+        so that the operation on it is only counted once
+
+        """
+
+        from .coord_payload import CoordPayload
+
+        return operand.payload if isinstance(operand, CoordPayload) else operand
+
 #
 # Arithmetic operations
 #
     def __add__(self, other):
         """__add__"""
 
+        other = Payload._elementPayload(other)
+
         if isinstance(other, Payload):
             ans = self.value + other.value
         else:
@@ -411,6 +424,9 @@ class Payload:
 
     def __iadd__(self, other):
         """__iadd__"""
+
+        other = Payload._elementPayload(other)
+
         old = self.value
 
         if isinstance(other, Payload):
@@ -518,6 +534,8 @@ class Payload:
     def __mul__(self, other):
         """__mul__"""
 
+        other = Payload._elementPayload(other)
+
         if isinstance(other, Payload):
             ans = self.value * other.value
         else:
@@ -608,6 +626,8 @@ class Payload:
     def __imul__(self, other):
         """__imul__"""
 
+        other = Payload._elementPayload(other)
+
         if isinstance(other, Payload):
             self.value = self.value * other.value
         else:
-- 
2.43.0


From 525681bf8ba9d8d941918de8d0311a1b45bc8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 34/52] fix: assigning a fiber element to a payload assigns its
 value

---
 fibertree/core/payload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 6449cbe..b8205f8 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -488,6 +488,8 @@ class Payload:
 
         """
 
+        other = Payload._elementPayload(other)
+
         # Collect metrics
         if Metrics.isCollecting():
             Metrics.incCount("Compute", "payload_update", 1)
-- 
2.43.0


From 884bc117c65de350d50ae12d4e98cd48a56ae496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 35/52] fix: an in-memory trace added to a running file trace
 (or the reverse) starts with its header

---
 fibertree/core/metrics.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 806d901..7c661ed 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -705,8 +705,20 @@ class Metrics:
             cls.traces[rank][type_] = ([], mem_trace, is_started)
 
         # If the rank is already in the loop order, no one else will start it
-        if not is_started and (rank in cls.line_order or rank in cls.rank_matches):
-            cls._startTrace(rank, type_)
+        if rank in cls.line_order or rank in cls.rank_matches:
+            if not is_started:
+                cls._startTrace(rank, type_)
+
+            # The other form of the trace is running: start only the new one
+            elif consumable and mem_trace is None:
+                cls.traces[rank][type_] = (None, [], False)
+                cls._startTrace(rank, type_)
+                cls.traces[rank][type_] = (file_trace, cls.traces[rank][type_][1], True)
+
+            elif not consumable and file_trace is None:
+                cls.traces[rank][type_] = ([], None, False)
+                cls._startTrace(rank, type_)
+                cls.traces[rank][type_] = (cls.traces[rank][type_][0], mem_trace, True)
 
     @classmethod
     def _writeTrace(cls, rank, type_):
-- 
2.43.0


From 696717fac45d0a5b6ce223473b592e9356cf5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 36/52] fix: finishing an inserting populate moves explicit
 empty elements too

---
 fibertree/core/iterators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index ff0e3a0..518a11a 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1365,9 +1365,8 @@ def __lshift__(self, other, start_pos=None):
             # location
             if len(to_insert) > 0:
                 iteration = list(iteration)
-                for i, (c, p) in enumerate(reversed(list(self.a_fiber.iterOccupancy(
-                                        tick=False, start_pos=insert_start_pos)))):
-                    write_pos = len(self.a_fiber) - i - 1
+                for write_pos in reversed(range(insert_start_pos, len(self.a_fiber.coords))):
+                    c = self.a_fiber.coords[write_pos]
                     iteration[Metrics.getIndex(rank)] += 1
 
                     # If this is an element we inserted, we need to read it
-- 
2.43.0


From 8a9321dd3ebe692498dc8fda95a5d12cc4b030b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 37/52] fix: bound a buffer's staging area by the shape of its
 own rank

---
 fibertree/model/traffic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..39819d5 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -471,6 +471,7 @@ class Traffic:
         shapes = []
         for i, info in enumerate(bind_info):
             if pin_intermediate_writes(info):
+                tensor, rank = info[:2]
                 shape = formats[tensor].tensor.getShape(authoritative=True)
                 assert shape is not None
                 shapes.append(shape[formats[tensor].tensor.getRankIds().index(rank)])
-- 
2.43.0


From 508634ecceb3d7d92c1bd87fb77f9da6654e3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 38/52] fix: the cache model looks up the accessed line itself
 and orders ties

---
 fibertree/model/traffic.py | 102 ++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 48 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 39819d5..63fc3ed 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -137,7 +137,10 @@ class Traffic:
     @staticmethod
     def _buildNextUseTrace(ranks, elems_per_line, input_fn, output_fn):
         """Build a trace of for each access to a tensor (as specified by its
-        ranks), when the corresponding next use was"""
+        ranks), when the corresponding next use was
+
+        Returns, for each access from the last to the first, how many accesses
+        follow its next use (None if there is no next use)"""
         out_split = os.path.splitext(output_fn)
 
         # Build a mask specifying the locations of the interesting ranks
@@ -148,6 +151,7 @@ class Traffic:
 
         # With each use, save the next use by iterating backwards
         last_points = {}
+        next_uses = []
         with open(output_fn, "w") as f_out, FileReadBackwards(input_fn) as f_in:
             for line in f_in:
                 # FileReadBackwards already removes the trailing newline
@@ -163,17 +167,21 @@ class Traffic:
                 # If there is a last_use
                 line_split = line.split(",")
                 if point in last_points:
-                    last_split = last_points[point].split(",")
-                    new_csv = line + "," + last_points[point]
+                    last_line, next_use = last_points[point]
+                    new_csv = line + "," + last_line
                 else:
+                    next_use = None
                     new_csv = line + "," + ",".join("None" for _ in split)
 
                 f_out.write(new_csv + "\n")
-                last_points[point] = line
+                last_points[point] = line, len(next_uses)
+                next_uses.append(next_use)
 
             head_out = ",".join(head_in + [val + "_next" for val in head_in])
             f_out.write(head_out + "\n")
 
+        return next_uses
+
     @staticmethod
     def buffetTraffic(bindings, formats, trace_fns, capacity, line_sz,
             loop_ranks=None):
@@ -389,6 +397,7 @@ class Traffic:
 
         # Build traces with the next use
         next_use_traces = {}
+        next_uses = {}
         for key, fn in read_write_traces.items():
             tensor, rank, type_ = key
             elems_per_line = line_sz // formats[tensor].getElem(rank, type_)
@@ -397,7 +406,8 @@ class Traffic:
             split_fn = os.path.splitext(fn)
             next_fn = split_fn[0] + "-next-" + "-".join(key) + split_fn[1]
 
-            Traffic._buildNextUseTrace(loop_rank_ids[tensor], elems_per_line, fn, next_fn)
+            next_uses[key] = Traffic._buildNextUseTrace(
+                loop_rank_ids[tensor], elems_per_line, fn, next_fn)
             next_use_traces[key] = next_fn
 
         # Open all the traces
@@ -461,7 +471,7 @@ class Traffic:
         next_keys = []
         next_traces = []
         for i, info in enumerate(bind_info):
-            next_key, next_trace = Traffic._extractNext(i, info, traces, order)
+            next_key, next_trace = Traffic._extractNext(i, info, traces, next_uses, order)
             next_keys.append(next_key)
             next_traces.append(next_trace)
         next_keys.sort()
@@ -546,7 +556,8 @@ class Traffic:
 
             # Advance the relevant trace
             del next_keys[0]
-            next_key, next_trace = Traffic._extractNext(i, bind_info[i], traces, order)
+            next_key, next_trace = Traffic._extractNext(
+                i, bind_info[i], traces, next_uses, order)
             next_traces[i] = next_trace
 
             j = bisect.bisect_left(next_keys, next_key)
@@ -566,7 +577,7 @@ class Traffic:
         return traffic, overflows
 
     @staticmethod
-    def _extractNext(i, info, traces, order):
+    def _extractNext(i, info, traces, next_uses, order):
         """Get the next stamps for the given binding info"""
         # Get the trace
         line = traces[info[:3]].readline()
@@ -599,6 +610,9 @@ class Traffic:
         key[:num_ranks // 4] = trace[:num_ranks // 4]
         key = tuple(key)
 
+        # The number of accesses in this trace after the next use comes last
+        trace.append(next_uses[info[:3]].pop())
+
         return key, trace
 
     @staticmethod
@@ -638,23 +652,26 @@ class Traffic:
         """
         @functools.total_ordering
         class ListElem:
-            def __init__(self, bind_pos, next_access, obj):
-                self.next_access = next_access
+            def __init__(self, bind_pos, next_use, obj):
+                self.next_use = next_use
                 self.obj = obj
                 self.pos = bind_pos
 
+            def _key(self):
+                # Fall back on the position if the next access is at the same
+                # point, and on the order within the trace if that is the same
+                # (where a line that is next written goes first)
+                next_access, is_write, num_after = self.next_use
+                return next_access, self.pos, not is_write, -num_after
+
             def __eq__(self, other):
-                return self.next_access == other.next_access and self.pos == other.pos
+                return self._key() == other._key()
 
             def __lt__(self, other):
-                if self.next_access != other.next_access:
-                    return self.next_access < other.next_access
-
-                # Fall back on the position if the next access is at the same point
-                return self.pos < other.pos
+                return self._key() < other._key()
 
             def __repr__(self):
-                return str((self.next_access, self.obj, self.pos))
+                return str((self.next_use, self.obj, self.pos))
 
         def extract_binding(binding):
             return binding["tensor"], binding["rank"], binding["type"]
@@ -678,48 +695,37 @@ class Traffic:
         def to_be_buffered(bind_info, bind_pos, capacity, loop_ranks,
                 num_ranks, obj, objs, occupancy, order, shapes, sim_info, trace):
             next_evict, pinned, _ = sim_info
-            next_access = trace[num_ranks * 2 + 2:num_ranks * 3 + 2]
+            next_use = trace[num_ranks * 2 + 2:num_ranks * 3 + 2], \
+                trace[num_ranks * 4 + 3], trace[-1]
             tensor, _, type_ = bind_info[bind_pos]
 
+            # If this element is in the cache, take it off the list of the
+            # elements that can be evicted (unless it is pinned)
+            in_cache = obj in objs[tensor][type_]
+            list_elem = None
+            if in_cache:
+                list_elem = objs[tensor][type_][obj][1]
+                if obj not in pinned[tensor][type_]:
+                    next_evict.remove(list_elem)
+
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
-                if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
-
-                    list_elem.next_access = [float("inf")]
-
-                else:
-                    list_elem = None
+                if in_cache:
+                    list_elem.next_use = None
 
                 sim_info = next_evict, pinned, list_elem
                 return False, sim_info
 
-            # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
-                list_elem.next_access = next_access
+            # If this element is in the cache, it stays there
+            if in_cache:
+                list_elem.next_use = next_use
+                if obj not in pinned[tensor][type_]:
+                    next_evict.add(list_elem)
 
-                next_evict.add(list_elem)
                 sim_info = next_evict, pinned, list_elem
-
                 return True, sim_info
 
-            # If the element is pinned
-            elif obj in pinned[tensor][type_]:
-                list_elem = objs[tensor][type_][obj][1]
-                list_elem.next_access = next_access
-
-                sim_info = next_evict, pinned, list_elem
-                return True, sim_info
-
-            assert obj not in objs[tensor][type_]
-
-            list_elem = ListElem(bind_pos, next_access, obj)
+            list_elem = ListElem(bind_pos, next_use, obj)
             sim_info = next_evict, pinned, list_elem
             # Definitely buffer if there is space in the buffer
             if occupancy + line_sz <= capacity:
@@ -784,7 +790,7 @@ class Traffic:
             tensor, _, type_ = key
 
             # Ensure that there has been no error
-            assert list_elem.next_access == [float("inf")]
+            assert list_elem.next_use is None
 
             # If the line has been mutated and it needs to be saved, write it first
             if objs[tensor][type_][list_elem.obj][0]:
-- 
2.43.0


From a2733892847c060aa6a38bdf4567c377be8d03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 39/52] fix: a cached line that receives a staged element is
 pinned too

---
 fibertree/model/traffic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 63fc3ed..96e3330 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -708,6 +708,10 @@ class Traffic:
                 if obj not in pinned[tensor][type_]:
                     next_evict.remove(list_elem)
 
+                    # A line of the staging area stays until its last use
+                    if shapes[bind_pos] is not None and trace[num_ranks * 2] >= shapes[bind_pos]:
+                        pinned[tensor][type_].add(obj)
+
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
                 if in_cache:
-- 
2.43.0


From 7b4534d313fb887e175ec333879336de129cc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 40/52] fix: filterTrace keeps every matching row, in whatever
 order points occur

---
 fibertree/model/traffic.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index 96e3330..e8589c2 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -48,29 +48,16 @@ class Traffic:
             f_out.write(f_in.readline())
             f_fil.readline()
 
+            # The points of the filter, as deep as the points of the input
             line_in = f_in.readline()
-            line_fil = f_fil.readline()
+            depth = len(get_data(line_in))
+            points = {get_data(line_fil)[:depth] for line_fil in f_fil}
 
-            data_in = get_data(line_in)
-            data_fil = get_data(line_fil)[:len(data_in)]
-
-            while line_in and line_fil:
-                if data_in == data_fil:
+            while line_in:
+                if get_data(line_in) in points:
                     f_out.write(line_in)
 
-                    line_in = f_in.readline()
-                    line_fil = f_fil.readline()
-
-                    data_in = get_data(line_in)
-                    data_fil = get_data(line_fil)[:len(data_in)]
-
-                elif data_in < data_fil:
-                    line_in = f_in.readline()
-                    data_in = get_data(line_in)
-
-                else:
-                    line_fil = f_fil.readline()
-                    data_fil = get_data(line_fil)[:len(data_in)]
+                line_in = f_in.readline()
 
     @staticmethod
     def _combineTraces(read_fn=None, write_fn=None, comb_fn=None):
-- 
2.43.0


From 8cef2e48f27433c9cd8f380d67981b6df1a91d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 41/52] fix: traffic of traces with negative coordinates

---
 fibertree/model/traffic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e8589c2..1feeb66 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -576,7 +576,7 @@ class Traffic:
         split = line[:-1].split(",")
         trace = []
         for val in split:
-            if val.isdigit():
+            if val.lstrip("-").isdigit():
                 trace.append(int(val))
             elif val[0] == "N":
                 trace.append(None)
-- 
2.43.0


From 3c8a0bfc3925233d26dc1ae43dc710e62da0a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 42/52] fix: intersectors separate fibers, also those with an
 empty operand

---
 fibertree/model/intersect.py | 194 +++++++++++------------------------
 1 file changed, 61 insertions(+), 133 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..e44c22a 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -16,7 +16,7 @@ class Intersector:
 
         """
         self.num_intersects = 0
-        self.started = False
+        self.started = set()
 
     def addTraces(self, *traces):
         """Consume the information in the trace to count intersections
@@ -37,6 +37,32 @@ class Intersector:
         """
         raise NotImplementedError
 
+    def _dropHeader(self, i, trace):
+        """Throw away the header of the ith trace, since we don't need it
+
+        Note: the header comes with the first entry of that trace"""
+        if trace and i not in self.started:
+            self.started.add(i)
+            return trace[1:]
+
+        return trace
+
+    def _getFibers(self, *traces):
+        """Split the traces into the coordinates presented in each fiber
+
+        Returns, for each fiber, a list of coordinates per trace
+
+        Note: an operand whose fiber is empty has no entries for it"""
+        fibers = {}
+        for i, trace in enumerate(traces):
+            for entry in self._dropHeader(i, trace):
+                end = len(entry) // 2
+                fiber = tuple(entry[:end - 1]), tuple(entry[end:end * 2 - 1])
+                coords = fibers.setdefault(fiber, [[] for _ in traces])
+                coords[i].append(entry[end * 2 - 1])
+
+        return fibers.values()
+
     def getNumIntersects(self):
         """Get the number of intersection tests performed so far
 
@@ -73,14 +99,7 @@ class LeaderFollowerIntersector(Intersector):
         """
         assert len(traces) == 1
 
-        new_intersects = len(traces[0])
-
-        # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-            new_intersects -= 1
-
-        self.num_intersects += new_intersects
+        self.num_intersects += len(self._dropHeader(0, traces[0]))
 
 class SkipAheadIntersector(Intersector):
     """Class for counting intersections with a skip-ahead-intersector"""
@@ -104,81 +123,33 @@ class SkipAheadIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
-
-        # Throw away the header, since we don't need it
-        if not self.started and trace0:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
-
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
-
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-        curr = None
-
-        while point0 and point1:
-            if point0 == point1:
-                self.num_intersects += 1
-                curr = None
-
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                if curr != 0:
-                    curr = 0
-                    self.num_intersects += 1
-
-                point0, i0 = get_next(trace0, i0)
-
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
+        for coords0, coords1 in self._getFibers(*traces):
+            i0 = 0
+            i1 = 0
+            curr = None
 
-            # point0 > point1
-            else:
-                if curr != 1:
-                    curr = 1
+            while i0 < len(coords0) and i1 < len(coords1):
+                if coords0[i0] == coords1[i1]:
                     self.num_intersects += 1
+                    curr = None
 
-                point1, i1 = get_next(trace1, i1)
+                    i0 += 1
+                    i1 += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                elif coords0[i0] < coords1[i1]:
+                    if curr != 0:
+                        curr = 0
+                        self.num_intersects += 1
 
-            old_fiber = fiber
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                    i0 += 1
 
-            # Do not need to check point1 because both fingers should fall of
-            # the end of the trace at the same time
+                # coords0[i0] > coords1[i1]
+                else:
+                    if curr != 1:
+                        curr = 1
+                        self.num_intersects += 1
 
-            if fiber != old_fiber:
-                curr = None
+                    i1 += 1
 
 class TwoFingerIntersector(Intersector):
     """Class for counting intersections with a two-finger-intersector"""
@@ -200,63 +171,20 @@ class TwoFingerIntersector(Intersector):
         """
         assert len(traces) == 2
 
-        trace0 = traces[0]
-        trace1 = traces[1]
-
-        # Throw away the header, since we don't need it
-        if not self.started:
-            self.started = True
-
-            self.num_ranks = (len(trace0[0]) - 1) // 2
-
-            trace0 = trace0[1:]
-            trace1 = trace1[1:]
-
-        i0 = -1
-        i1 = -1
-
-        def get_next(trace, i):
-            if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
-            return None, None
+        for coords0, coords1 in self._getFibers(*traces):
+            i0 = 0
+            i1 = 0
 
-        point0, i0 = get_next(trace0, i0)
-        point1, i1 = get_next(trace1, i1)
-
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-
-        while point0 and point1:
-            self.num_intersects += 1
-
-            if point0 == point1:
-                point0, i0 = get_next(trace0, i0)
-                point1, i1 = get_next(trace1, i1)
-
-            elif point0 < point1:
-                point0, i0 = get_next(trace0, i0)
-
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
-
-            # point0 > point1
-            else:
-                point1, i1 = get_next(trace1, i1)
+            while i0 < len(coords0) and i1 < len(coords1):
+                self.num_intersects += 1
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
+                if coords0[i0] == coords1[i1]:
+                    i0 += 1
+                    i1 += 1
 
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
+                elif coords0[i0] < coords1[i1]:
+                    i0 += 1
 
+                # coords0[i0] > coords1[i1]
+                else:
+                    i1 += 1
-- 
2.43.0


From bab8ec7b8f5bcbe70836461b869f86fb79261b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 43/52] fix: the swap count does not depend on payload values

---
 fibertree/model/compute.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 4f8d859..47511fb 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -72,14 +72,18 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber:
+            for payload in fiber.getPayloads():
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
         # Otherwise merge
+        #
+        # Note: all stored fibers are merged, whatever their payloads are
+        #
         coords = []
-        for _, payload in fiber:
-            coords.append(sorted([-c for c in payload.getCoords()]))
+        for payload in fiber.getPayloads():
+            if len(payload) > 0:
+                coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
             new = []
-- 
2.43.0


From ec7c8a974a3f3fe79f1f96fe578dc2c0f3a69e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 44/52] fix: numSwaps accepts the documented unlimited radix

---
 fibertree/model/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 47511fb..afe0da3 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -87,7 +87,7 @@ class Compute:
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if radix == "N" or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
-- 
2.43.0


From 0c5ef011432333e11017914a1840956817dc393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 45/52] fix: report the size of empty uncompressed and
 coordinate-list fibers

---
 fibertree/codec/formats/coord_list.py   | 3 ---
 fibertree/codec/formats/uncompressed.py | 3 +--
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 97ec4d4..e331ddb 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -277,9 +277,6 @@ class CoordinateList(CompressionFormat):
     # get size of representation
     def getSize(self): 
         # self.printFiber()
-        if self.next_fmt != None and self.next_fmt.encodeUpperPayload():
-            assert(len(self.payloads) > 0)
-
         size = len(self.coords) + len(self.occupancies)
         # Don't need to store occupancies if lower level is U
         # if not isinstance(self.payloads[0], CompressionFormat):
diff --git a/fibertree/codec/formats/uncompressed.py b/fibertree/codec/formats/uncompressed.py
index 350d030..0527b91 100644
--- a/fibertree/codec/formats/uncompressed.py
+++ b/fibertree/codec/formats/uncompressed.py
@@ -125,10 +125,9 @@ class Uncompressed(CompressionFormat):
         print("{} :: occupancies {}, payloads {}".format(self.name, self.occupancies, self.payloads))
     
     def getSize(self):
-        assert(len(self.payloads) > 0)
         assert(len(self.coords) == 0)
         size = len(self.occupancies)
-        if not isinstance(self.payloads[0], CompressionFormat):
+        if len(self.payloads) > 0 and not isinstance(self.payloads[0], CompressionFormat):
             size += len(self.payloads)
         
         # print("size of {} = {}. coords {}, occupancies {}, payloads {}".format(self.name, size, self.coords, self.occupancies, self.payloads))
-- 
2.43.0


From b7d481244bf9739f20d948c3c0ce3cf986010859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 46/52] fix: keep the imposed shape when encoding below a bit
 vector

---
 fibertree/codec/formats/bitvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index 5a8bb1f..a0e09ac 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -40,7 +40,7 @@ class Bitvector(CompressionFormat):
         
         for ind, (val) in a:
             if depth < len(ranks) - 1:
-                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor)
+                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor, shape=shape)
                 # store coordinate explicitly
                 self.payloads.append(fiber)
                 if isinstance(cumulative_occupancy, int):
-- 
2.43.0


From 5fb42e0c40e5b3a95c22050e80ce2b51515a7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 47/52] fix: locate the child fibers of encoded coordinate-list
 and bit-vector ranks

---
 fibertree/codec/formats/bitvector.py  |  5 +++++
 fibertree/codec/formats/coord_list.py | 15 +++------------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index a0e09ac..4cc19c6 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -127,6 +127,11 @@ class Bitvector(CompressionFormat):
         # self.prev_coord_at_payload = iter_handle.coords_handle
         return super().handleToPayload(iter_handle.payloads_handle)
 
+    # payloads are compressed, so the fiber's position in the next rank follows
+    # those that belong to earlier fibers of this rank
+    def payloadToFiberHandle(self, payload):
+        return self.occupancy_so_far + payload
+
     # does this need to return a payload handle?
     # NOTE: in bitvector, handles to coords and payloads are different
     def coordToHandle(self, coord):
diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index e331ddb..329bf76 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -226,22 +226,13 @@ class CoordinateList(CompressionFormat):
 
     # API Methods
     def handleToPayload(self, handle):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if self.next_fmt != None and not self.next_fmt.encodeUpperPayload():
-            print("\t\tnext level not encoded, ret {}".format(self.occupancy_so_far))
-            
-            return self.occupancy_so_far # self.idx_in_rank + handle
         return handle
 
     # API Methods
     def payloadToFiberHandle(self, payload):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if not self.next_fmt.encodeUpperPayload():
-            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, payload))
-            return payload # self.idx_in_rank # + payload
-        
-        # print("\t{} payloadToFiberHandle:: ret {}".format(self.name, payload))
-        return payload
+        # fibers of the next rank are serialized in order, so skip those that
+        # belong to earlier fibers of this rank
+        return self.occupancy_so_far + payload
 
 
     # return handle for termination
-- 
2.43.0


From c345f9505e135722be8890707d300f0ca275c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 48/52] fix: insert rejects a coordinate the fiber already has

Inserting it again left the ordered, unique fiber with a duplicate coordinate.
---
 fibertree/core/fiber.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 7fca109..f45cfc3 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1480,6 +1480,10 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
+        if self._unique:
+            assert coord not in self.coords, \
+                   "Fiber coordinates in 'unique' fibers must not be duplicated"
+
         payload = Payload.maybe_box(value)
 
         try:
-- 
2.43.0


From 19e38ff2f06a192523f548d353f72fc4d15de599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 49/52] fix: insertOrLookup leaves the ranks alone when the
 coordinate exists

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f45cfc3..ea935a6 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1455,7 +1455,7 @@ class Fiber:
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
         if value is None:
-            value = self._createDefault()
+            value = self._createDefault(addtorank=False)
 
         payload = Payload.maybe_box(value)
 
-- 
2.43.0


From f027ad1b7eddbbb42e66b48ebcd1082ebed19de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 50/52] fix: the stand-in for an absent intersection or
 co-iteration is a tuple of defaults

---
 fibertree/core/iterators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 518a11a..ea11fbd 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -463,6 +463,8 @@ def coiterRangeShape(fibers, start, end, step=1):
                 yield CoordPayload(c, payloads)
 
     fiber = fibers[0].fromIterator(coiter_range_shape_iterator, active_range=(start, end))
+    fiber._absent = lambda: tuple(
+        [f._createDefault(addtorank=False) for f in fibers])
     fiber.getRankAttrs().setId(fibers[0].getRankAttrs().getId())
     return fiber
 
@@ -507,6 +509,8 @@ def coiterRangeShapeRef(fibers, start, end, step=1):
                 yield CoordPayload(c, payloads)
 
     fiber = fibers[0].fromIterator(coiter_range_shape_ref_iterator, active_range=(start,end))
+    fiber._absent = lambda: tuple(
+        [f._createDefault(addtorank=False) for f in fibers])
     fiber.getRankAttrs().setId(fibers[0].getRankAttrs().getId())
     return fiber
 
@@ -619,6 +623,8 @@ def intersection(*args, **kwargs):
         active_range = args[0].getActive()
 
     fiber = args[0].fromIterator(intersection_iterator, active_range=active_range)
+    fiber._absent = lambda: tuple(
+        [f._createDefault(addtorank=False) for f in args])
     fiber.getRankAttrs().setId(args[0].getRankAttrs().getId())
     return fiber
 
@@ -899,6 +905,8 @@ def __and__(self, other):
         active_range = other_range
 
     fiber = self.fromIterator(and_iterator, active_range=active_range)
+    fiber._absent = lambda: tuple(
+        [f._createDefault(addtorank=False) for f in (self, other)])
     fiber.getRankAttrs().setId(self.getRankAttrs().getId())
     return fiber
 
-- 
2.43.0


From 93e54af56b7fa167fb6d388ba1c37f76339cf5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 51/52] fix: updateCoords of tuple coordinates under an integer
 active range

---
 fibertree/core/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ea935a6..ef41da8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2638,7 +2638,8 @@ class Fiber:
             self.coords[i] = new_coord
 
             # Does the active range still hold the coordinates it held?
-            if active is not None and active[0] <= old_coord < active[1]:
+            if active is not None and isinstance(old_coord, type(active[0])) \
+                    and active[0] <= old_coord < active[1]:
                 active_valid = active_valid and \
                     isinstance(new_coord, type(old_coord)) and \
                     active[0] <= new_coord < active[1]
-- 
2.43.0


From 3e61b3c22cb350559251d18f4be7ae8b48bbb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 52/52] fix: a fiber split or merged below its top rank keeps
 the shape its rank gave it

---
 fibertree/core/fiber.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ef41da8..72312c6 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4174,7 +4174,7 @@ class Fiber:
 
         # Only clear the owner after the split so that the fiber has the full
         # shape information
-        fiber.setOwner(None)
+        fiber._leaveOwner()
         return fiber
 
     def _splitFiber(self, splitter):
@@ -4504,7 +4504,7 @@ class Fiber:
             return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)
 
         copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
-        copied.setOwner(None)
+        copied._leaveOwner()
         return copied
 
     def _mergeRanksHelper(self, levels=1, style="tuple", merge_fn=None):
@@ -4966,6 +4966,17 @@ class Fiber:
 
         return owners
 
+    def _leaveOwner(self):
+        """Clear the owner of this fiber, but keep the shape the owner gave it"""
+        owner = self.getOwner()
+        self.setOwner(None)
+
+        if owner is not None:
+            # An estimated shape is estimated again
+            attrs = owner.getAttrs()
+            shape = None if attrs.getEstimatedShape() else attrs.getShape()
+            self.getRankAttrs().setShape(shape)
+
     def _attach_attrs(self, owners):
         owner = owners[None]
         if owner is not None:
-- 
2.43.0

