From 53f03abdd5fc108cd98f1c83ea650f04e287dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 01/37] fix: keep the positions selected by a boolean key, not
 the flags

---
 biggus/_init.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..022bb88 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1322,7 +1322,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1365,6 +1365,9 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            # Record the selected positions, so that any further indexing
+            # is applied to those and not to the boolean flags.
+            key = tuple(np.flatnonzero(key))
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
-- 
2.43.0


From e309c0855ac139d9f7d07b6294a9bdbcb129270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 02/37] fix: mixing a scalar and a tuple key must stay
 orthogonal

---
 biggus/_init.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 022bb88..e52ec81 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1507,14 +1507,14 @@ class NumpyArrayAdapter(_ArrayAdapter):
 
     """
     def _apply_keys(self):
-        # If we have more than one tuple as a key, then NumPy does
-        # "fancy" indexing, instead of "column-based" indexing, so we
-        # need to use multiple indexing operations to get the right
-        # result.
+        # If we have more than one tuple as a key, or a tuple and a
+        # scalar, then NumPy does "fancy" indexing, instead of
+        # "column-based" indexing, so we need to use multiple indexing
+        # operations to get the right result.
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
                       if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+        if len(tuple_keys) > 1 or (tuple_keys and any(map(_is_scalar, keys))):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
@@ -1542,7 +1542,8 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, key, axis=dimensions[i])
+                indices = np.array(key, dtype=np.intp)
+                array = np.take(array, indices, axis=dimensions[i])
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From cb1fae377c60123775a3540167cf0abcb6468d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 03/37] fix: masked scalars of a source keep their dtype, mask
 and fill value

---
 biggus/_init.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e52ec81..28dd4be 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1473,19 +1473,28 @@ class _ArrayAdapter(Array):
     def _apply_keys(self):
         pass
 
-    def ndarray(self):
+    def _concrete_section(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # NumPy represents any masked scalar by this constant, which
+            # doesn't have the dtype (or fill value) of its source.
+            array = ma.masked_all((), dtype=self.dtype)
+            array.fill_value = self.fill_value
+        return array
+
+    def ndarray(self):
+        array = self._concrete_section()
+        if ma.isMaskedArray(array):
+            array = array.filled()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
-        if ma.isMaskedArray(array):
-            array = array.filled()
         return array
 
     def masked_array(self):
-        array = self._apply_keys()
+        array = self._concrete_section()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-- 
2.43.0


From 3442d5fb283365d8c43a37ffca176429323e2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 04/37] fix: NewAxesArray must broadcast the axis left after
 removing dimensions

---
 biggus/_init.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 28dd4be..b19b469 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -803,10 +803,13 @@ class NewAxesArray(ArrayContainer):
         contained_array_keys = []
         existing_array_axis = 0
         broadcast_dict = {}
+        # The number of dimensions of the result so far.
+        result_axis = 0
 
         for key_index, key in enumerate(keys):
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
+                result_axis += 1
                 continue
 
             if is_newaxis.pop(0):
@@ -821,14 +824,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
@@ -843,6 +846,9 @@ class NewAxesArray(ArrayContainer):
                 contained_array_keys.append(key)
                 existing_array_axis += 1
 
+            if not _is_scalar(key):
+                result_axis += 1
+
         new_axes = list(new_axes)
         for axis in sorted(axes_to_combine, reverse=True):
             new_axes[axis] += new_axes.pop(axis + 1)
-- 
2.43.0


From a88e5a85cb45b68be04c58bf21b985701a347006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 05/37] fix: NewAxesArray with no new axes must not turn a 0-d
 array to a scalar

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b19b469..b3cf4b3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -860,11 +860,12 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # NB. The Ellipsis ensures the result is always an array.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 31ef50d800f11622df796e62cb01a74637fcb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 06/37] fix: accept vector keys on the concrete axes of a
 BroadcastArray

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b3cf4b3..6f43042 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -964,7 +964,8 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-- 
2.43.0


From 12140cf1f653f581b28222b8d98e9b4935beb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 07/37] fix: allow broadcasting against empty dimensions

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 6f43042..77d6bac 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -905,8 +905,9 @@ class BroadcastArray(ArrayContainer):
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
         for length in leading_shape:
-            if length < 1:
-                raise ValueError('Leading shape must all be >=1.')
+            if length < 0:
+                raise ValueError('Leading shape must all be >=1, or 0 for '
+                                 'an empty array.')
         self._leading_shape = tuple(leading_shape)
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
-- 
2.43.0


From 8f909be1c94f656567b2e51b564ae2bdcefa64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 08/37] fix: broadcast a BroadcastArray along its own axes

---
 biggus/_init.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 77d6bac..9c4fa10 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -989,13 +989,34 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast_array(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast_array(array2, **bcast_kwargs2)
 
         return array1, array2
 
+    @classmethod
+    def _broadcast_array(cls, array, broadcast, leading_shape):
+        """
+        Broadcast the given array, where the broadcast axes are those of
+        the array itself.
+
+        """
+        if isinstance(array, BroadcastArray):
+            # The axes of a nested BroadcastArray are those of the array it
+            # contains, so deal with its leading dimensions here.
+            n_leading = len(array._leading_shape)
+            existing = tuple(broadcast.get(axis, length) for axis, length
+                             in enumerate(array._leading_shape))
+            leading_shape = tuple(leading_shape) + existing
+            broadcast_dict = array._broadcast_dict.copy()
+            for axis, length in broadcast.items():
+                if axis >= n_leading:
+                    broadcast_dict[axis - n_leading] = length
+            array, broadcast = array.array, broadcast_dict
+        return cls(array, broadcast, leading_shape)
+
     @staticmethod
     def _compute_broadcast_shape(shape1, shape2):
         """
-- 
2.43.0


From cf456fd6ac3e64af258c17da02780b4178fd4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 09/37] fix: accept negative axes in transpose

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9c4fa10..8ea6779 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1668,6 +1668,8 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        elif any(axis < 0 for axis in axes):
+            axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From 74a1347112d4c79d8998c76d05a82d0311de1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 10/37] fix: a chain of astype calls must apply every cast

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 8ea6779..b212a64 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1170,7 +1170,8 @@ class AsDataTypeArray(ArrayContainer):
         return self._dtype
 
     def astype(self, dtype):
-        return type(self)(self.array, dtype)
+        # NB. The existing cast can lose information, so it can't be skipped.
+        return type(self)(self, dtype)
 
     def __getitem__(self, keys):
         # Apply the indexing to the contained array, then instantly
-- 
2.43.0


From 24dac371d875b85dbc46ff24b6a11a7eacade7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 11/37] fix: reject out of bounds indices of constant and
 broadcast dimensions

---
 biggus/_init.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index b212a64..e54ef83 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -929,6 +929,7 @@ class BroadcastArray(ArrayContainer):
         # to compute the new leading shape size.
         leading_shape = self._leading_shape
         leading_shape_len = len(leading_shape)
+        _check_bounds(keys[:leading_shape_len], leading_shape)
         leading_shape = _sliced_shape(leading_shape, keys[:leading_shape_len])
 
         axis_offset -= leading_shape_len
@@ -1280,6 +1281,7 @@ class ConstantArray(Array):
     def __getitem__(self, keys):
         # newaxis is handled within _sliced_shape, so we override __getitem__,
         # not _getitem_full_keys.
+        _check_bounds(keys, self.shape)
         shape = _sliced_shape(self.shape, keys)
         return ConstantArray(shape, self.value, self._dtype)
 
@@ -3278,6 +3280,34 @@ def _sliced_shape(shape, keys):
     return sliced_shape
 
 
+def _check_bounds(keys, shape):
+    """
+    Raise an IndexError if any of the integer keys, or any of the integers
+    within the iterable keys, is out of bounds for an array of the given
+    shape.
+
+    Slices, boolean arrays and np.newaxis are always within bounds.
+
+    """
+    axis = 0
+    for key in _full_keys(keys, len(shape)):
+        if key is np.newaxis:
+            continue
+        if _is_scalar(key):
+            indices = (key,)
+        elif isinstance(key, slice) or (isinstance(key, np.ndarray) and
+                                        key.dtype == np.dtype('bool')):
+            indices = ()
+        else:
+            indices = key
+        size = shape[axis]
+        for index in indices:
+            if not -size <= index < size:
+                raise IndexError('index {} is out of bounds for axis {} with '
+                                 'size {}'.format(index, axis, size))
+        axis += 1
+
+
 def _full_keys(keys, ndim):
     """
     Given keys such as those passed to ``__getitem__`` for an
-- 
2.43.0


From 928d838da0ce1e1e8eaa1018b250a2128ef5e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 12/37] fix: index the dimensions of an ArrayStack
 independently

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e54ef83..f81a366 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1851,8 +1851,12 @@ class ArrayStack(Array):
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
         if stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
+            # Apply the keys one by one, starting from the last dimension,
+            # as NumPy doesn't treat multiple iterable keys independently.
+            stack = self._stack
+            for axis in reversed(range(stack_ndim)):
+                stack = stack[(slice(None),) * axis + (stack_keys[axis],)]
+            # Make sure we don't modify the original stack.
             stack = np.array(stack)
             for index in np.ndindex(stack_shape):
                 item = stack[index]
-- 
2.43.0


From 99de93c53a8a8ef3224db583f7d66cbf82ed6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/37] fix: allow an empty selection of the items of an
 ArrayStack

---
 biggus/_init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f81a366..fbfeb34 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1850,7 +1850,12 @@ class ArrayStack(Array):
         item_keys = keys[stack_ndim:]
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
-        if stack_shape:
+        if 0 in stack_shape:
+            # There are no items left to stack.
+            _check_bounds(stack_keys, self._stack.shape)
+            item = self._stack.flat[0][item_keys]
+            result = ConstantArray(stack_shape + item.shape, dtype=self.dtype)
+        elif stack_shape:
             # Apply the keys one by one, starting from the last dimension,
             # as NumPy doesn't treat multiple iterable keys independently.
             stack = self._stack
-- 
2.43.0


From deb70890cd04799e8d96633946bba8ae3de07154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 14/37] fix: a negative slice step on a LinearMosaic reversed
 its tiles twice

---
 biggus/_init.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index fbfeb34..3ffb2af 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2095,9 +2095,6 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 95e0d96afa2ce5e87322016fa111a5079cb107c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 15/37] fix: negative, boolean, out of bounds and empty keys on
 a LinearMosaic

---
 biggus/_init.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3ffb2af..32c1f46 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2056,12 +2056,15 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
+            _check_bounds((axis_key,), (size,))
             if _is_scalar(axis_key):
+                axis_key %= size
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2069,10 +2072,12 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
+                elif isinstance(axis_key, np.ndarray) and \
+                        axis_key.dtype == np.dtype('bool'):
+                    all_axis_indices = np.flatnonzero(axis_key)
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    all_axis_indices = [index % size for index in axis_key]
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -2095,6 +2100,10 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
+                if not tiles:
+                    # Nothing is selected, so use none of the first tile.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 2e1e7c3eff7c7eae70efef53ce0098b1439438d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 16/37] fix: elementwise results are arrays of the declared
 dtype

---
 biggus/_init.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 32c1f46..0001d2c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3091,7 +3091,10 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
-        return result
+        # Promote array-scalar to 0-dimensional array, and ensure the result
+        # is as promised. (A Python scalar operand has become an array, which
+        # can result in a different type promotion.)
+        return np.asarray(result, dtype=self.dtype)
 
     def masked_array(self):
         if self._ma_op is None:
@@ -3099,7 +3102,10 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        return result
+        if result is ma.masked:
+            result = ma.masked_all((), dtype=self.dtype)
+        # See `ndarray`.
+        return ma.asarray(result, dtype=self.dtype)
 
     def streams_handler(self, masked):
         if masked:
-- 
2.43.0


From 009ac53b988bb1f8f6c8b2084fe532373799e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 17/37] fix: sum of a masked array whose chunk has no mask

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0001d2c..5fe8c58 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2488,7 +2488,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From beff9f2cb9a95cbfe26fa3cd00421b005548565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 18/37] fix: min and max must combine the chunks along the
 aggregated axis

---
 biggus/_init.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5fe8c58..769b6ac 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2392,7 +2392,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2403,15 +2403,18 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.partial = None
 
     def finalise(self):
-        array = self.result
+        array = np.min(self.partial, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2419,12 +2422,15 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        # Treat the result so far as just one more data value.
+        if self.partial is not None:
+            data = np.ma.concatenate([self.partial, data], axis=self.axis)
+        self.partial = data.min(axis=self.axis, keepdims=True)
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2435,15 +2441,18 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.partial = None
 
     def finalise(self):
-        array = self.result
+        array = np.max(self.partial, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2451,7 +2460,10 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        # Treat the result so far as just one more data value.
+        if self.partial is not None:
+            data = np.ma.concatenate([self.partial, data], axis=self.axis)
+        self.partial = data.max(axis=self.axis, keepdims=True)
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 3d9184711ac834859edbff9313d6eb6cbd016fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 19/37] fix: std and var of chunks of length one along the
 aggregated axis

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 769b6ac..b2b67e2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2576,7 +2576,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
+        self.k = 0
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2592,7 +2592,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0:
+            self.k = 1
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From 3b016c9d9016369102ab95585c8ee849d57600be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 20/37] fix: mean of a masked array with no data left raised an
 error

---
 biggus/_init.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b2b67e2..5d0642a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2542,11 +2542,9 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
         mask = self.running_count == 0
-        denominator = np.ma.array(self.running_count, mask=mask, dtype=float)
-        array = np.ma.array(self.running_total, mask=mask) / denominator
+        denominator = np.where(mask, 1, self.running_count)
         # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
+        array = np.ma.array(self.running_total / denominator, mask=mask)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
@@ -2560,7 +2558,7 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From a72706e7c30de2e3e4219beb9387bc059e7f1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 21/37] fix: integer overflow of the mean, std and var
 accumulators

---
 biggus/_init.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5d0642a..54fec58 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2504,6 +2504,15 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
+def _accumulator_dtype(dtype):
+    # The dtype in which to accumulate a mean, standard deviation or variance
+    # of the given dtype. Integers would overflow, as would the smallest
+    # floating types to which they can be converted.
+    if dtype.kind in 'biu':
+        dtype = np.dtype(float)
+    return dtype
+
+
 class _MeanStreamsHandler(_AggregationStreamsHandler):
     nice_name = 'mean'
 
@@ -2514,7 +2523,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+                                      dtype=_accumulator_dtype(
+                                          self.array.dtype))
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2535,9 +2545,10 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        self.running_total = np.zeros(shape, dtype=_accumulator_dtype(
+            self.array.dtype))
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2575,7 +2586,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.k = 0
-        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype = _accumulator_dtype(self.array.dtype)
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
@@ -2624,7 +2635,7 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         del self.target_shape[self.axis]
 
     def bootstrap(self, processed_chunk_shape):
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = _accumulator_dtype(self.array.dtype)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-- 
2.43.0


From 0e457f38ef87de9a69ecd3abf2e97d76813a38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 22/37] fix: a failing node must not leave its inputs waiting
 forever

---
 biggus/_init.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 54fec58..559205e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -256,6 +256,7 @@ class ConsumerNode(Node):
         the registered output queues.
 
         """
+        input_chunks = [QUEUE_FINISHED] * len(self.input_queues)
         try:
             while True:
                 input_chunks = [input.get() for input in self.input_queues]
@@ -276,6 +277,13 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # Discard whatever is left of the inputs. Otherwise an input node
+            # would wait forever for space in its output queue, and so any
+            # other node which makes use of it would never finish.
+            for input, chunk in zip(self.input_queues, input_chunks):
+                while not (chunk is QUEUE_FINISHED or chunk is QUEUE_ABORT):
+                    chunk = input.get()
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From fc344ae324876318678b4117ae6953f6e355e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 23/37] fix: don't share a node between different iteration
 orders

---
 biggus/_init.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 559205e..9ccd5d3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -370,25 +370,40 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._nodes = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            # NB. An array can be needed in more than one iteration order, but
+            # where those are equivalent we want to use just the one node.
+            cache_key = (id(array), tuple(iteration_order))
             node = self._node_cache.get(cache_key, None)
             if node is None:
                 if hasattr(array, 'streams_handler'):
-                    node = StreamsHandlerNode(array,
-                                              array.streams_handler(masked))
-                    iteration_order = node.input_iteration_order(
+                    handler = array.streams_handler(masked)
+                    input_order = handler.input_iteration_order(
                         iteration_order)
                     input_nodes = [self._make_node(input_array,
-                                                   iteration_order, masked)
+                                                   input_order, masked)
                                    for input_array in array.sources]
-                    node.add_input_nodes(input_nodes)
+                    node_key = (id(array), tuple(map(id, input_nodes)))
+                    node = self._nodes.get(node_key, None)
+                    if node is None:
+                        node = StreamsHandlerNode(array, handler)
+                        node.add_input_nodes(input_nodes)
                 else:
-                    node = ProducerNode(array, iteration_order, masked)
+                    # The order only matters for the dimensions which consist
+                    # of more than one chunk.
+                    cuts = _all_slices_inner(array.shape, always_slices=True)
+                    order = tuple(axis for axis in iteration_order
+                                  if len(cuts[axis]) > 1)
+                    node_key = (id(array), order)
+                    node = self._nodes.get(node_key, None)
+                    if node is None:
+                        node = ProducerNode(array, iteration_order, masked)
+                self._nodes[node_key] = node
                 self._node_cache[cache_key] = node
             return node
 
@@ -419,7 +434,7 @@ class AllThreadedEngine(Engine):
                 result_nodes.append(result_node)
 
             # Start up all the producer/computation threads.
-            for node in six.itervalues(self._node_cache):
+            for node in six.itervalues(self._nodes):
                 node.thread()
 
             # Wait for the result threads to finish.
-- 
2.43.0


From 1f613685be2f44d9acd22caa3102af4cf3294a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 24/37] fix: evaluate operands in the same chunks

---
 biggus/_init.py | 69 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9ccd5d3..373943a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -371,6 +371,7 @@ class AllThreadedEngine(Engine):
             self.indices = indices
             self._node_cache = {}
             self._nodes = {}
+            self._cuts = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
@@ -385,8 +386,12 @@ class AllThreadedEngine(Engine):
                     handler = array.streams_handler(masked)
                     input_order = handler.input_iteration_order(
                         iteration_order)
-                    input_nodes = [self._make_node(input_array,
-                                                   input_order, masked)
+                    if self._inputs_match(array, masked):
+                        make_input_node = self._make_node
+                    else:
+                        make_input_node = self._make_producer_node
+                    input_nodes = [make_input_node(input_array, input_order,
+                                                   masked)
                                    for input_array in array.sources]
                     node_key = (id(array), tuple(map(id, input_nodes)))
                     node = self._nodes.get(node_key, None)
@@ -394,19 +399,53 @@ class AllThreadedEngine(Engine):
                         node = StreamsHandlerNode(array, handler)
                         node.add_input_nodes(input_nodes)
                 else:
-                    # The order only matters for the dimensions which consist
-                    # of more than one chunk.
-                    cuts = _all_slices_inner(array.shape, always_slices=True)
-                    order = tuple(axis for axis in iteration_order
-                                  if len(cuts[axis]) > 1)
-                    node_key = (id(array), order)
-                    node = self._nodes.get(node_key, None)
-                    if node is None:
-                        node = ProducerNode(array, iteration_order, masked)
+                    return self._make_producer_node(array, iteration_order,
+                                                    masked)
                 self._nodes[node_key] = node
                 self._node_cache[cache_key] = node
             return node
 
+        def _make_producer_node(self, array, iteration_order, masked):
+            # The order only matters for the dimensions which consist of more
+            # than one chunk.
+            cuts = _all_slices_inner(array.shape, always_slices=True)
+            order = tuple(axis for axis in iteration_order
+                          if len(cuts[axis]) > 1)
+            node_key = ('producer', id(array), order)
+            node = self._nodes.get(node_key, None)
+            if node is None:
+                node = ProducerNode(array, iteration_order, masked)
+                self._nodes[node_key] = node
+            return node
+
+        def _chunk_cuts(self, array, masked):
+            """
+            The slices into which each dimension of the array is cut by
+            the node for that array.
+
+            """
+            cuts = self._cuts.get(id(array), None)
+            if cuts is None:
+                if hasattr(array, 'streams_handler'):
+                    source = array.sources[0]
+                    if self._inputs_match(array, masked):
+                        cuts = self._chunk_cuts(source, masked)
+                    else:
+                        cuts = _all_slices_inner(source.shape,
+                                                 always_slices=True)
+                    handler = array.streams_handler(masked)
+                    cuts = list(handler.output_keys(cuts))
+                else:
+                    cuts = _all_slices_inner(array.shape, always_slices=True)
+                self._cuts[id(array)] = cuts
+            return cuts
+
+        def _inputs_match(self, array, masked):
+            """Whether the nodes for the array's sources use equal chunks."""
+            cuts = [self._chunk_cuts(source, masked)
+                    for source in array.sources]
+            return all(source_cuts == cuts[0] for source_cuts in cuts)
+
         def evaluate(self, masked):
             """
             Convert each of the Array instances in this group into its
@@ -2305,6 +2344,14 @@ class _StreamsHandler(six.with_metaclass(ABCMeta, object)):
     def input_iteration_order(self, iteration_order):
         pass
 
+    def output_keys(self, source_keys):
+        """
+        Given one key for each source dimension, return the keys for the
+        dimensions of the result.
+
+        """
+        return tuple(source_keys)
+
     @abstractmethod
     def process_chunks(self, chunks):
         pass
-- 
2.43.0


From 2ee4f13a3c003a6145094759add31c0d451ed389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 25/37] fix: sum of a masked array computed without masking

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 373943a..0db9c42 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2571,7 +2571,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def process_data(self, data):
         self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
-        self.running_total += np.sum(data.filled(0), axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
 def _accumulator_dtype(dtype):
-- 
2.43.0


From 5aa89bc5564f339b4b9a17b3e046665b87517198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 26/37] fix: the dask engine failed to combine misaligned
 chunks

---
 biggus/experimental/dask_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..e9e956c 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -240,7 +240,7 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                     combined = self.collect(array[t_keys], masked, chunk=True)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
-                              ''.format(array[t_keys].shape, uuid.uuid()))
+                              ''.format(array[t_keys].shape, uuid.uuid4()))
                     dsk_graph[new_id] = new_task
                     dependencies = (new_id, )
 
-- 
2.43.0


From c4ae9eb1957967c1233f1ee2680ee8bd8a9c96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 27/37] fix: the dask engine gathered misaligned chunks at the
 wrong place

---
 biggus/experimental/dask_engine.py | 31 ++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index e9e956c..d455b29 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -216,8 +216,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
             t_keys = tuple(slice(*slice_tuple) for slice_tuple in slice_group)
 
             all_chunks = []
-            for source_keys, source_chunks_by_key in zip(sources_keys_group,
-                                                         sources_chunks):
+            for input_array, source_keys, source_chunks_by_key in zip(
+                    array.sources, sources_keys_group, sources_chunks):
                 dependencies = tuple(
                         the_id
                         for keys in source_keys
@@ -237,7 +237,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Fix slice equality to deal with 0 and None etc.
                 if not all(t_keys == normalize_keys(keys, array.shape)
                            for keys in source_keys):
-                    combined = self.collect(array[t_keys], masked, chunk=True)
+                    combined = self.collect(input_array[t_keys], masked,
+                                            chunk_keys=t_keys)
                     new_task = (combined, ) + dependencies
                     new_id = ('chunk shape: {}\n\n{}'
                               ''.format(array[t_keys].shape, uuid.uuid4()))
@@ -351,7 +352,21 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return nodes
 
     @staticmethod
-    def collect(array, masked, chunk=False, name=None):
+    def collect(array, masked, chunk_keys=None, name=None):
+        """
+        Create a function to gather chunks into a single array, or into a
+        single chunk if its keys are given.
+
+        """
+        def relative_chunk(chunk):
+            # The chunk's keys are relative to the whole of the source.
+            keys = []
+            for key, group_key, size in zip(chunk.keys, chunk_keys,
+                                            chunk.data.shape):
+                start = (key.start or 0) - (group_key.start or 0)
+                keys.append(slice(start, start + size))
+            return biggus._init.Chunk(tuple(keys), chunk.data)
+
         def gather(*all_chunks):
             # We make the NdarrayNode inside the calling function as it is this
             # that ultimately we want. TODO: Turn this into a biggus.Array
@@ -361,12 +376,12 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 # TODO: Factor it so that this isn't necessary...
                 if isinstance(chunks, biggus._init.Chunk):
                     chunks = [chunks]
+                if chunk_keys is not None:
+                    chunks = [relative_chunk(chunk) for chunk in chunks]
                 result_node.process_chunks(chunks)
             result_array = result_node.result
-            if chunk:
-                return biggus._init.Chunk(tuple(slice(None)
-                                                for _ in result_array.shape),
-                                          result_array)
+            if chunk_keys is not None:
+                return biggus._init.Chunk(chunk_keys, result_array)
             return result_array
         if name:
             gather.__name__ = name
-- 
2.43.0


From 31d47b93d1dbf35a5f94c00e0300119e4e3aac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 28/37] fix: nbytes of huge arrays overflowed

---
 biggus/_init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0db9c42..d523353 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -548,7 +548,11 @@ class Array(six.with_metaclass(ABCMeta, object)):
     @property
     def nbytes(self):
         """The total number of bytes required to store the array data."""
-        return int(np.product(self.shape) * self.dtype.itemsize)
+        # NB. Use Python integers, as a virtual array can be huge.
+        nbytes = int(self.dtype.itemsize)
+        for size in np.atleast_1d(self.shape):
+            nbytes *= int(size)
+        return nbytes
 
     @property
     def ndim(self):
-- 
2.43.0


From 4caf6b06dc52b82276a20ffa9fa2725e87af410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 29/37] fix: don't expose uninitialised data below masked
 scalars

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index d523353..ba82a16 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1577,7 +1577,7 @@ class _ArrayAdapter(Array):
         if array is ma.masked:
             # NumPy represents any masked scalar by this constant, which
             # doesn't have the dtype (or fill value) of its source.
-            array = ma.masked_all((), dtype=self.dtype)
+            array = ma.array(np.zeros((), self.dtype), mask=True)
             array.fill_value = self.fill_value
         return array
 
@@ -3199,7 +3199,7 @@ class _Elementwise(ComputedArray):
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
         if result is ma.masked:
-            result = ma.masked_all((), dtype=self.dtype)
+            result = ma.array(np.zeros((), self.dtype), mask=True)
         # See `ndarray`.
         return ma.asarray(result, dtype=self.dtype)
 
-- 
2.43.0


From e7714ba085b26645c54904bac1a2b9208cafd547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 30/37] fix: fmod had no masked operation

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ba82a16..75ea5a9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3354,7 +3354,7 @@ nextafter = _dual_input_fn_wrapper('np.nextafter', np.nextafter)
 # modf = _unary_fn_wrapper('np.modf', np.modf)  # Needs 2 arrays out.
 ldexp = _dual_input_fn_wrapper('np.ldexp', np.ldexp)
 # frexp = _unary_fn_wrapper('np.frexp', np.frexp)  # Needs 2 arrays out.
-fmod = _dual_input_fn_wrapper('np.fmod', np.fmod)
+fmod = _ufunc_wrapper(np.fmod)
 floor = _ufunc_wrapper(np.floor)
 ceil = _ufunc_wrapper(np.ceil)
 trunc = _ufunc_wrapper(np.trunc)
-- 
2.43.0


From 87ee444720f64ca42e46d3849486a5bbc52fb140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 31/37] fix: group_keys emptied its arguments, and lost keys of
 a list given twice

---
 biggus/experimental/key_grouper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 5b4e299..0ef1d20 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -138,6 +138,8 @@ def group_keys(shape, *inputs_keys):
     # Store the result as a slice mapping to a subset of the inputs_keys. We
     # start with the assumption that there will be only one group, and
     # subdivide when we find this not to be the case.
+    # (The lists are consumed below, so work on copies of them.)
+    inputs_keys = tuple(list(input_keys) for input_keys in inputs_keys)
     ndim = len(inputs_keys[0][0])
     grouped_inputs_keys = {tuple((None, None, None)
                                  for _ in range(ndim)): inputs_keys}
-- 
2.43.0


From f3cd914dd758fd0c8d9730c40e06da925d669fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 32/37] fix: grouping of more than 9999 keys failed

---
 biggus/experimental/key_grouper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 0ef1d20..4a2fa5e 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -110,9 +110,9 @@ def dimension_group_to_lowest_common(dim_length, dim_keys):
                              for stop, index in zip(current_stops,
                                                     current_index)]
 
-        # Prevent an infinite loop.
+        # Prevent an infinite loop (every iteration uses up some key).
         i += 1
-        if i > 9999:
+        if i > sum(lengths):
             # This should never happen, but it may be possible with some inputs
             # (unverified).
             raise RuntimeError('The algorithm failed to find key groups.')
-- 
2.43.0


From 793e28e193281ffded86b4d9d7aae909d663e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:45 +0000
Subject: [PATCH 33/37] fix: keep the byte-order of a source when converting a
 single element

---
 biggus/_init.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 75ea5a9..36d1f9b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1587,18 +1587,21 @@ class _ArrayAdapter(Array):
             array = array.filled()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
-        # "inflate" it back to a 0-dimensional array.
+        # "inflate" it back to a 0-dimensional array. (An array-scalar
+        # always has native byte-order, unlike the source perhaps.)
         if array.ndim == 0:
-            array = np.array(array)
+            array = np.array(array, dtype=self.dtype)
         return array
 
     def masked_array(self):
         array = self._concrete_section()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
-        # "inflate" it back to a 0-dimensional array.
+        # "inflate" it back to a 0-dimensional array. (An array-scalar
+        # always has native byte-order, unlike the source perhaps.)
         if array.ndim == 0 or not ma.isMaskedArray(array):
-            array = ma.MaskedArray(array, fill_value=self.fill_value)
+            array = ma.MaskedArray(array, dtype=self.dtype,
+                                   fill_value=self.fill_value)
         return array
 
 
-- 
2.43.0


From 28ddb908baed0e1b030de91abb1a7c0d1b8723bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 34/37] fix: an empty selection of a stack of any dtype

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 36d1f9b..79a106c 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1923,7 +1923,7 @@ class ArrayStack(Array):
             # There are no items left to stack.
             _check_bounds(stack_keys, self._stack.shape)
             item = self._stack.flat[0][item_keys]
-            result = ConstantArray(stack_shape + item.shape, dtype=self.dtype)
+            result = ConstantArray(stack_shape + item.shape, 0, self.dtype)
         elif stack_shape:
             # Apply the keys one by one, starting from the last dimension,
             # as NumPy doesn't treat multiple iterable keys independently.
-- 
2.43.0


From 5dd33c8e3ca434c369dd7816fcb0f90a6b3a1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 35/37] fix: half precision overflowed the mean, std and var
 accumulators

The mean of 2000 elements of about 70 was inf, and the masked standard
deviation was masked, although they have a float16 value.
---
 biggus/_init.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 79a106c..4469180 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2585,7 +2585,7 @@ def _accumulator_dtype(dtype):
     # The dtype in which to accumulate a mean, standard deviation or variance
     # of the given dtype. Integers would overflow, as would the smallest
     # floating types to which they can be converted.
-    if dtype.kind in 'biu':
+    if dtype.kind in 'biu' or dtype == np.float16:
         dtype = np.dtype(float)
     return dtype
 
@@ -2612,7 +2612,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2646,7 +2647,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 433a0d88b384ace242fa6bf6d5f60c6048dae11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:02 +0000
Subject: [PATCH 36/37] fix: indexing an operation on a Python scalar changed
 its dtype

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4469180..729f3ba 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3187,6 +3187,9 @@ class _Elementwise(ComputedArray):
         else:
             result = _Elementwise(self._array1[keys], self._array2[keys],
                                   self._numpy_op, self._ma_op)
+        # The dtype can depend on a Python scalar operand, which has become
+        # an array by now.
+        result._dtype = self.dtype
         return result
 
     def ndarray(self):
-- 
2.43.0


From 831dd1bd3ef87639c00b073767401d1e384bc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:02 +0000
Subject: [PATCH 37/37] fix: chunks of an operation on a Python scalar had
 another dtype

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 729f3ba..45d9696 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3081,9 +3081,10 @@ def var(a, axis=None, ddof=0):
 
 
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, dtype):
         self.sources = sources
         self.operator = operator
+        self.dtype = dtype
 
     def finalise(self):
         pass
@@ -3093,6 +3094,9 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
+        # Ensure the result is as promised. (See `_Elementwise.ndarray`.)
+        if array.dtype != self.dtype:
+            array = array.astype(self.dtype)
         chunk = Chunk(chunks[0].keys, array)
         return chunk
 
@@ -3219,7 +3223,7 @@ class _Elementwise(ComputedArray):
             operator = self._ma_op
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+        return _ElementwiseStreamsHandler(self.sources, operator, self.dtype)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0

