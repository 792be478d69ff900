"""refactors.py [NAME ...]: edits which keep the behaviour; the contracts of
the properties around them have to stay quiet.

For each edit the contracts are run on a scratch copy; printed are refuted
obligations (false alarms) and what became undecided."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'biggus/_init.py'
K = 'biggus/experimental/key_grouper.py'
R = {}


def edit(name, props, *pairs, **kw):
    R[name] = (kw.get('file', I), props.split(), pairs)


edit('neg-loop', 'C07 C01 C05 C02', ("""        size = shape[axis]
        for index in indices:
            if not -size <= index < size:
                raise IndexError('index {} is out of bounds for axis {} with '
                                 'size {}'.format(index, axis, size))
        axis += 1
""", """        size = shape[axis]
        if any(index < -size or index >= size for index in indices):
            bad = [i for i in indices if i < -size or i >= size][0]
            raise IndexError('index {} is out of bounds for axis {} with '
                             'size {}'.format(bad, axis, size))
        axis += 1
"""))
edit('bounds-enumerate', 'C07 C05 C04', ("""    axis = 0
    for key in _full_keys(keys, len(shape)):
        if key is np.newaxis:
            continue
        if _is_scalar(key):
            indices = (key,)
""", """    real_keys = [key for key in _full_keys(keys, len(shape))
                 if key is not np.newaxis]
    for axis, key in enumerate(real_keys):
        if _is_scalar(key):
            indices = (key,)
"""), ("""                raise IndexError('index {} is out of bounds for axis {} with '
                                 'size {}'.format(index, axis, size))
        axis += 1
""", """                raise IndexError('index {} is out of bounds for axis {} with '
                                 'size {}'.format(index, axis, size))
"""))
edit('sliced-shape-iter', 'C02 C01 C18', ("""    sliced_shape = []
    shape_dim = -1
    for key in keys:
        shape_dim += 1
        if _is_scalar(key):
            continue
        elif isinstance(key, slice):
            size = len(range(*key.indices(shape[shape_dim])))
            sliced_shape.append(size)
""", """    sliced_shape = []
    shape_dim = -1
    for key in keys:
        shape_dim += 1
        if _is_scalar(key):
            continue
        elif isinstance(key, slice):
            start, stop, step = key.indices(shape[shape_dim])
            if step > 0:
                size = builtins.max(0, (stop - start + step - 1) // step)
            else:
                size = builtins.max(0, (start - stop - step - 1) // -step)
            sliced_shape.append(size)
"""))
edit('full-keys-index', 'C02 C07', ("""    n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
""", """    n_keys_non_newaxis = 0
    for key in keys:
        if key is not np.newaxis:
            n_keys_non_newaxis += 1
"""))
edit('cleanup-helper', 'C01 C07', ("""    def _cleanup_new_key(self, key, size, axis):
""", """    @staticmethod
    def _check_index(key, size, axis):
        if not (-size <= key < size):
            raise IndexError('index {0} is out of bounds for axis {1} with'
                             ' size {2}'.format(key, axis, size))

    def _cleanup_new_key(self, key, size, axis):
"""), ("""        if _is_scalar(key):
            if key >= size or key < -size:
                msg = 'index {0} is out of bounds for axis {1} with' \\
                      ' size {2}'.format(key, axis, size)
                raise IndexError(msg)
        elif isinstance(key, slice):
            pass
""", """        if isinstance(key, slice):
            return key
        if _is_scalar(key):
            self._check_index(key, size, axis)
"""), ("""            key = tuple(key)
            for sub_key in key:
                if sub_key >= size or sub_key < -size:
                    msg = 'index {0} is out of bounds for axis {1}' \\
                          ' with size {2}'.format(sub_key, axis, size)
                    raise IndexError(msg)
        else:
            raise TypeError('invalid key {!r}'.format(key))
        return key
""", """            key = tuple(key)
            for sub_key in key:
                self._check_index(sub_key, size, axis)
        else:
            raise TypeError('invalid key {!r}'.format(key))
        return key
"""))
edit('getitem-for', 'C01 C07', ("""        axis = 0
        while src_keys and new_keys:
            src_size = shape.pop(0)
            src_key = src_keys.pop(0)
""", """        axis = 0
        while len(src_keys) > 0 and len(new_keys) > 0:
            src_size, src_key = shape[0], src_keys[0]
            del shape[0], src_keys[0]
"""))
edit('remap-list', 'C01', ("""            result_key = tuple(indices[key] for key in new_key)
""", """            result = []
            for key in new_key:
                result.append(indices[key])
            result_key = tuple(result)
"""))
edit('adapter-apply', 'C01 C17', ("""                cut_keys = list(keys)
                for i, key in tuple_keys:
                    cut_keys[i] = slice(None)
""", """                cut_keys = [slice(None) if isinstance(key, tuple) else key
                            for key in keys]
"""))
edit('adapter-take', 'C01', ("""                is_scalar = list(map(_is_scalar, cut_keys))
                dimensions -= np.cumsum(is_scalar)
""", """                n_removed = 0
                for dim, key in enumerate(cut_keys):
                    if _is_scalar(key):
                        n_removed += 1
                    dimensions[dim] -= n_removed
"""))
edit('transpose-keys', 'C03', ("""        while new_scalar_axes:
            # Take the highest scalar axis.
            scalar_axis = new_scalar_axes.pop()
            new_transpose_order = [axis - 1 if axis >= scalar_axis else axis
                                   for axis in new_transpose_order
                                   if axis != scalar_axis]
""", """        kept = [axis for axis in new_transpose_order
                if axis not in new_scalar_axes]
        new_transpose_order = [
            axis - len([s for s in new_scalar_axes if s < axis])
            for axis in kept]
"""))
edit('transpose-helper', 'C03 C18', ("""        result = [None] * self.ndim
        for axis, item in enumerate(target):
            result[axis_map[axis]] = item
        return tuple(result)
""", """        placed = dict((axis_map[axis], item)
                      for axis, item in enumerate(target))
        return tuple(placed[i] for i in range(self.ndim))
"""))
edit('newaxes-shape', 'C03 C18', ("""        shape = list(self.array.shape)
        # Starting from the higher dimensions, insert 1s at the locations
        # of new axes.
        for axes, n_new_axes in reversed(list(enumerate(self._new_axes))):
            for _ in range(n_new_axes):
                shape.insert(axes, 1)
        return tuple(shape)
""", """        shape = []
        for axes, n_new_axes in enumerate(self._new_axes):
            shape.extend([1] * int(n_new_axes))
            if axes < self.array.ndim:
                shape.append(self.array.shape[axes])
        return tuple(shape)
"""))
edit('newaxes-elif', 'C03 C07', ("""                if _is_scalar(key):
                    if -1 <= key < 1:
                        new_axes[existing_array_axis] -= 1
                    else:
                        raise IndexError('index {} is out of bounds for axis '
                                         '{} with size 1'.format(key,
                                                                 key_index))
""", """                if _is_scalar(key):
                    if not -1 <= key < 1:
                        raise IndexError('index {} is out of bounds for axis '
                                         '{} with size 1'.format(key,
                                                                 key_index))
                    new_axes[existing_array_axis] -= 1
"""))
edit('broadcast-strides', 'C03 C08', ("""        strides = [0] * len(leading_shape) + list(array.strides)
        for broadcast_axis in broadcast_dict:
            strides[broadcast_axis + len(leading_shape)] = 0
""", """        strides = [0] * len(leading_shape)
        for axis, stride in enumerate(array.strides):
            strides.append(0 if axis in broadcast_dict else stride)
"""))
edit('broadcast-to', 'C03 C08 C17', ("""        from numpy.lib.stride_tricks import as_strided
        shape = cls._shape_from_broadcast_dict(array.shape, broadcast_dict)
        shape = tuple(leading_shape) + shape
        strides = [0] * len(leading_shape) + list(array.strides)
        for broadcast_axis in broadcast_dict:
            strides[broadcast_axis + len(leading_shape)] = 0
        strided = as_strided(array, shape=tuple(shape), strides=tuple(strides))
        strided.flags.writeable = False  # Fix bug in NumPy 1.10.1.
        return strided
""", """        shape = cls._shape_from_broadcast_dict(array.shape, broadcast_dict)
        shape = tuple(leading_shape) + shape
        return np.broadcast_to(array, shape)
"""))
edit('broadcast-shape', 'C08', ("""        s1, s2 = list(shape1), list(shape2)
        len_diff = len(s1) - len(s2)
        if len_diff > 0:
            s2[0:0] = [1] * len_diff
        else:
            s1[0:0] = [1] * -len_diff
""", """        ndim = builtins.max(len(shape1), len(shape2))
        s1 = [1] * (ndim - len(shape1)) + list(shape1)
        s2 = [1] * (ndim - len(shape2)) + list(shape2)
"""))
edit('broadcast-kwargs', 'C08', ("""        for ax, (full, s1) in enumerate(zip(full_shape[s1_offset:], shape1)):
            if full != s1:
                bcast_kwargs1['broadcast'][ax] = full

        for ax, (full, s2) in enumerate(zip(full_shape[s2_offset:], shape2)):
            if full != s2:
                bcast_kwargs2['broadcast'][ax] = full
""", """        for kwargs, offset, shape in ((bcast_kwargs1, s1_offset, shape1),
                                      (bcast_kwargs2, s2_offset, shape2)):
            kwargs['broadcast'] = {
                ax: full_shape[offset + ax] for ax, size in enumerate(shape)
                if full_shape[offset + ax] != size}
"""))
edit('broadcast-index', 'C03 C07', ("""                    if not -existing_size <= key < existing_size:
                        raise IndexError('index {} is out of bounds for axis '
                                         '{} with size 1'.format(key, axis))
                    else:
                        # We want to index the broadcast dimension.
                        array_keys.append(0)
                        n_axes_removed += 1
""", """                    if key >= existing_size or key < -existing_size:
                        raise IndexError('index {} is out of bounds for axis '
                                         '{} with size 1'.format(key, axis))
                    # We want to index the broadcast dimension.
                    n_axes_removed += 1
                    array_keys.append(0)
"""))
edit('stack-loop', 'C04 C17 C18', ("""            for axis in reversed(range(stack_ndim)):
                stack = stack[(slice(None),) * axis + (stack_keys[axis],)]
            # Make sure we don't modify the original stack.
            stack = np.array(stack)
            for index in np.ndindex(stack_shape):
                item = stack[index]
                stack[index] = item[item_keys]
            result = ArrayStack(stack)
""", """            for axis in reversed(range(stack_ndim)):
                stack = stack[(slice(None),) * axis + (stack_keys[axis],)]
            new_stack = np.empty(stack_shape, dtype='O')
            for index in np.ndindex(stack_shape):
                new_stack[index] = stack[index][item_keys]
            result = ArrayStack(new_stack)
"""))
edit('stack-convert', 'C04 C18', ("""        for index in np.ndindex(self._stack.shape):
            data[index] = self._stack[index].ndarray()
        return data
""", """        for index, item in np.ndenumerate(self._stack):
            data[index] = item.ndarray()
        return data
"""))
edit('mosaic-convert', 'C05 C18', ("""        offset = 0
        indices = [slice(None)] * self.ndim
        axis = self._axis
        for tile in self._tiles:
            next_offset = offset + tile.shape[axis]
            indices[axis] = slice(offset, next_offset)
            data[indices] = tile.ndarray()
            offset = next_offset
        return data
""", """        offset = 0
        axis = self._axis
        for tile in self._tiles:
            length = tile.shape[axis]
            indices = (slice(None),) * axis + (slice(offset,
                                                     offset + length),)
            data[indices] = tile.ndarray()
            offset += length
        return data
"""))
edit('mosaic-scalar', 'C05 C07', ("""                tile_index = np.searchsorted(splits, axis_key) - 1
                tile = self._tiles[tile_index]
                tile_indices = list(keys)
                tile_indices[axis] = axis_key - offsets[tile_index]
                result = tile[tuple(tile_indices)]
""", """                for tile in self._tiles:
                    length = tile.shape[axis]
                    if axis_key < length:
                        break
                    axis_key -= length
                tile_indices = list(keys)
                tile_indices[axis] = axis_key
                result = tile[tuple(tile_indices)]
"""))
edit('mosaic-axis', 'C05', ("""                new_axis = axis
                for key in keys[:axis]:
                    if _is_scalar(key):
                        new_axis -= 1
                result = LinearMosaic(tiles, new_axis)
""", """                n_scalars = len([k for k in keys[:axis] if _is_scalar(k)])
                result = LinearMosaic(tiles, axis - n_scalars)
"""))
edit('mosaic-keys', 'C05', ("""        keys = []
        non_full_slice_found = False
        for key in full_keys[::-1]:
            if isinstance(key, np.ndarray) or key != slice(None):
                non_full_slice_found = True
            if non_full_slice_found:
                keys.append(key)
        keys = tuple(keys[::-1])
""", """        keys = list(full_keys)
        while keys and not isinstance(keys[-1], np.ndarray) and \\
                keys[-1] == slice(None):
            keys.pop()
        keys = tuple(keys)
"""))
edit('agg-keys', 'C06', ("""        keys = list(keys)
        keys[self._axis:self._axis] = [slice(None)]
        keys = tuple(keys)
        # Reduce the aggregation-axis by the number of prior dimensions that
        # get removed by the indexing operation.
        scalar_axes = map(_is_scalar, keys[:self._axis])
        result_axis = self._axis - builtins.sum(scalar_axes)
""", """        axis = self._axis
        keys = tuple(keys[:axis]) + (slice(None),) + tuple(keys[axis:])
        result_axis = axis
        for key in keys[:axis]:
            if _is_scalar(key):
                result_axis -= 1
"""))
edit('agg-shape', 'C06 C19 C18', ("""        shape = list(self._array.shape)
        del shape[self._axis]
        return tuple(shape)

    @property
    def sources(self):
        return (self._array,)
""", """        shape = tuple(self._array.shape)
        return shape[:self._axis] + shape[self._axis + 1:]

    @property
    def sources(self):
        return (self._array,)
"""))
edit('axis-list', 'C19', ("""        axes = tuple(axis if axis >= 0 else array.ndim + axis for axis in axes)
        if not all(0 <= axis < array.ndim for axis in axes):
            raise ValueError("'axis' value is out of bounds")
""", """        result = []
        for axis in axes:
            if axis < 0:
                axis += array.ndim
            if axis < 0 or axis >= array.ndim:
                raise ValueError("'axis' value is out of bounds")
            result.append(axis)
        axes = tuple(result)
"""))
edit('std-helper', 'C11 C17', ("""        for data_slice in data:
            self.k += 1

            # Compute a(k).
            temp = data_slice - self.a
            temp /= self.k
            self.a += temp

            # Compute q(k).
            temp *= temp
            temp *= self.k * (self.k - 1)
            self.q += temp


class""", """        for data_slice in data:
            self._add(data_slice)

    def _add(self, data_slice):
        self.k += 1
        delta = (data_slice - self.a) / self.k
        self.a = self.a + delta
        self.q = self.q + delta * delta * (self.k * (self.k - 1))


class"""))
edit('mean-order', 'C12', ("""        self.running_count += np.ma.count(data, axis=self.axis)
        self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
""", """        total = np.sum(ma.filled(data, 0), axis=self.axis)
        n_masked = np.ma.count_masked(data, axis=self.axis)
        self.running_total += total
        self.running_masked_count += n_masked
        self.running_count += data.shape[self.axis] - n_masked
"""))
edit('sum-mask', 'C12', ("""        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
""", """        has_data = np.any(~ma.getmaskarray(data), axis=self.axis)
        self.mask &= ~has_data
        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
"""))
edit('min-chunk', 'C11', ("""        result = np.min(data, axis=self.axis)
        if self.result is not None:
            result = np.minimum(self.result, result)
        self.result = result
""", """        smallest = data.min(axis=self.axis)
        if self.result is None:
            self.result = smallest
        else:
            self.result = np.minimum(smallest, self.result)
"""))
edit('slices-helper', 'C09 C10', ("""            step = MAX_CHUNK_SIZE // n_elems
            slices = []
            for start in range(0, size, step):
                slices.append(slice(start, np.min([start + step, size])))
""", """            step = MAX_CHUNK_SIZE // n_elems
            slices = [slice(start, builtins.min(start + step, size))
                      for start in range(0, size, step)]
"""))
edit('slices-reverse', 'C09 C10', ("""    for i, size in reversed(list(enumerate(shape))):
        # Check""", """    for size in shape[::-1]:
        # Check"""), ("""        all_slices.insert(0, slices)
    return all_slices
""", """        all_slices.append(slices)
    return all_slices[::-1]
"""))
edit('save-product', 'C10', ("""    for index in np.ndindex(*[len(slices) for slices in all_slices]):
        keys = tuple(slices[i] for slices, i in zip(all_slices, index))
        if masked:
            target[keys] = array[keys].masked_array()
        else:
            target[keys] = array[keys].ndarray()
""", """    for keys in itertools.product(*all_slices):
        section = array[keys]
        data = section.masked_array() if masked else section.ndarray()
        target[keys] = data
"""))
edit('chunk-gen', 'C09', ("""        inverse_order = [iteration_order.index(i) for
                         i in range(len(iteration_order))]
        for cut_indices in np.ndindex(*cut_shape):
            key = tuple(cuts[i] for cuts, i in zip(all_cuts, cut_indices))
            key = tuple(key[i] for i in inverse_order)
            yield key
""", """        for cut_indices in np.ndindex(*cut_shape):
            key = [None] * len(iteration_order)
            for dim, cuts, i in zip(iteration_order, all_cuts, cut_indices):
                key[dim] = cuts[i]
            yield tuple(key)
"""))
edit('producer-helper', 'C14 C15', ("""            for key in chunk_index:
""", """            self._emit(chunk_index)
        except:
            self.abort()
            raise
        else:
            for queue in self.output_queues:
                queue.put(QUEUE_FINISHED)

    def _emit(self, chunk_index):
            for key in chunk_index:
"""), ("""                output_chunk = Chunk(key, data)
                self.output(output_chunk)
        except:
            self.abort()
            raise
        else:
            for queue in self.output_queues:
                queue.put(QUEUE_FINISHED)


class ConsumerNode""", """                output_chunk = Chunk(key, data)
                self.output(output_chunk)


class ConsumerNode"""))
edit('consumer-flags', 'C14 C15', ("""                if any(chunk is QUEUE_ABORT for chunk in input_chunks):
                    self.abort()
                    return
                if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
                    break
""", """                aborted = finished = False
                for chunk in input_chunks:
                    if chunk is QUEUE_ABORT:
                        aborted = True
                    elif chunk is QUEUE_FINISHED:
                        finished = True
                if aborted:
                    self.abort()
                    return
                if finished:
                    break
"""))
edit('consumer-send', 'C14 C15', ("""                self.output(self.process_chunks(input_chunks))
            # Finalise""", """                result = self.process_chunks(input_chunks)
                if result is not None:
                    self.output(result)
            # Finalise"""))
edit('agg-process', 'C14', ("""        result = None
        # If this chunk is a new source of data, do appropriate finalisation
        # of the previous chunk and initialise this one.
        if keys != self.current_keys:
            # If this isn't the first time this method has been called,
            # finalise any data which is waiting to be dealt with.
            if self.current_keys is not None:
                result = self.finalise()

            # Setup the processing of this new chunk.
            shape = self.output_shape(chunk.data.shape)
            self.bootstrap(shape)
            self.current_keys = keys
        self.process_data(chunk.data)
        return result
""", """        if keys == self.current_keys:
            self.process_data(chunk.data)
            return None
        result = None if self.current_keys is None else self.finalise()
        self.bootstrap(self.output_shape(chunk.data.shape))
        self.current_keys = keys
        self.process_data(chunk.data)
        return result
"""))
edit('evaluate-comp', 'C14 C15', ("""            # Wait for the result threads to finish.
            for thread in result_threads:
                thread.join()

            results = [node.result for node in result_nodes]
            if any(result is None for result in results):
                raise Exception('error during evaluation')
            return results
""", """            results = []
            for thread, result_node in zip(result_threads, result_nodes):
                thread.join()
                results.append(result_node.result)
            for result in results:
                if result is None:
                    raise Exception('error during evaluation')
            return results
"""))
edit('make-node-cache', 'C14', ("""            cache_key = (id(array), tuple(iteration_order))
            node = self._node_cache.get(cache_key, None)
            if node is None:
                if hasattr""", """            cache_key = (id(array), tuple(iteration_order))
            if cache_key in self._node_cache:
                return self._node_cache[cache_key]
            node = None
            if node is None:
                if hasattr"""))
edit('elementwise-sources', 'C13 C06 C18', ("""        if self._array2 is None:
            result = _Elementwise(self._array1[keys], None,
                                  self._numpy_op, self._ma_op)
        else:
            result = _Elementwise(self._array1[keys], self._array2[keys],
                                  self._numpy_op, self._ma_op)
        return result
""", """        second = self._array2
        if second is not None:
            second = second[keys]
        return _Elementwise(self._array1[keys], second, self._numpy_op,
                            self._ma_op)
"""))
edit('elementwise-convert', 'C13 C18', ("""        np_operands = ndarrays(self.sources)
        result = self._numpy_op(*np_operands)
""", """        operands = ndarrays(self.sources)
        if self._array2 is None:
            result = self._numpy_op(operands[0])
        else:
            result = self._numpy_op(operands[0], operands[1])
"""))
edit('operators-helper', 'C13', ("""    def __add__(self, other):
        try:
            return add(self, other)
        except TypeError:
            return NotImplemented
""", """    @staticmethod
    def _binary(function, left, right):
        try:
            result = function(left, right)
        except TypeError:
            result = NotImplemented
        return result

    def __add__(self, other):
        return self._binary(add, self, other)
"""))
edit('constant-full', 'C03 C18 C17', ("""        result = np.empty(self.shape, self._dtype)
        result.fill(self.value)
        return result
""", """        return np.full(self.shape, self.value, self._dtype)
"""))
edit('nbytes-reduce', 'C18', ("""        nbytes = int(self.dtype.itemsize)
        for size in np.atleast_1d(self.shape):
            nbytes *= int(size)
        return nbytes
""", """        total = 1
        for size in self.shape:
            total = total * int(size)
        return total * int(self.dtype.itemsize)
"""))
edit('getitem-any', 'C02 C03', ("""        new_axis_exists = any(key is np.newaxis for key in keys)
        if new_axis_exists:
            # Make a NewAxisArray containing this array and 0 new axes.
            array = NewAxesArray(self, [0] * (self.ndim + 1))
            indexed_array = array[keys]
        else:
            indexed_array = self._getitem_full_keys(keys)
        return indexed_array
""", """        for key in keys:
            if key is np.newaxis:
                # Make a NewAxisArray containing this array and 0 new axes.
                array = NewAxesArray(self, [0] * (self.ndim + 1))
                return array[keys]
        return self._getitem_full_keys(keys)
"""))
edit('group-loop', 'C20', ("""        starts = [keys[index].start or 0 for keys,
                  index in zip(dim_keys, start_index)]
        assert all_equal(starts)
""", """        starts = []
        for n, keys in enumerate(dim_keys):
            starts.append(keys[start_index[n]].start or 0)
        assert all_equal(starts)
"""), file=K)
edit('group-slice', 'C20', ("""    start = slice_instance.start or 0
    stop = (slice_instance.stop
            if slice_instance.stop is not None else dim_length)
    step = slice_instance.step
    if step == 1:
        step = None
    if stop is not None and stop < 0:
        stop = dim_length + stop
    if start is not None and start < 0:
        start = dim_length + start
""", """    start, stop, step = (slice_instance.start, slice_instance.stop,
                         slice_instance.step)
    if start is None:
        start = 0
    if stop is None:
        stop = dim_length
    if step == 1:
        step = None
    if stop < 0:
        stop += dim_length
    if start < 0:
        start += dim_length
"""), file=K)

D = 'biggus/experimental/dask_engine.py'
edit('dask-collect-helper', 'C20', ("""                if not all(t_keys == normalize_keys(keys, array.shape)
                           for keys in source_keys):
                    combined = self.collect(input_array[t_keys], masked,
                                            chunk_keys=t_keys)
                    new_task = (combined, ) + dependencies
                    new_id = ('chunk shape: {}\\n\\n{}'
                              ''.format(array[t_keys].shape, uuid.uuid4()))
                    dsk_graph[new_id] = new_task
                    dependencies = (new_id, )

                all_chunks.append(dependencies)
""", """                misaligned = [keys for keys in source_keys if
                              normalize_keys(keys, array.shape) != t_keys]
                if misaligned:
                    dependencies = self._combine(dsk_graph, array,
                                                 input_array, t_keys, masked,
                                                 dependencies)
                all_chunks.append(dependencies)
"""), ("""    @staticmethod
    def lazy_chunk_creator(name):
""", """    def _combine(self, dsk_graph, array, input_array, t_keys, masked,
                 dependencies):
        task_id = 'chunk shape: {}\\n\\n{}'.format(array[t_keys].shape,
                                                 uuid.uuid4())
        dsk_graph[task_id] = (self.collect(input_array[t_keys], masked,
                                           t_keys),) + tuple(dependencies)
        return [task_id]

    @staticmethod
    def lazy_chunk_creator(name):
"""), file=D)
edit('dask-leaf-nodes', 'C20', ("""                nodes = {}
                chunks = []

                name = '{}\\n{}'.format(array.__class__.__name__, array.shape)
                biggus_chunk_func = self.lazy_chunk_creator(name)

                chunk_index_gen = biggus._init.ProducerNode.chunk_index_gen
                for chunk_key in chunk_index_gen(array.shape,
                                                 iteration_order[::-1]):
""", """                nodes = {}

                name = '{}\\n{}'.format(type(array).__name__, array.shape)
                order = list(reversed(iteration_order))
                producer = biggus._init.ProducerNode
                keys = producer.chunk_index_gen(array.shape, order)
                biggus_chunk_func = self.lazy_chunk_creator(name)
                for chunk_key in keys:
"""), ("""                    chunks.append(task)
                    assert chunk_id not in dsk_graph
                    dsk_graph[chunk_id] = task
                    nodes[chunk_id] = task
""", """                    assert chunk_id not in dsk_graph
                    nodes[chunk_id] = task
                dsk_graph.update(nodes)
"""), file=D)
edit('dask-deps', 'C20', ("""                dependencies = tuple(
                        the_id
                        for keys in source_keys
                        for the_id, task in source_chunks_by_key[str(keys)])
                # Uniquify source_keys, but keep the order.
                dependencies = tuple(_unique_everseen(dependencies))
""", """                dependencies = []
                for keys in source_keys:
                    for the_id, _ in source_chunks_by_key[str(keys)]:
                        if the_id not in dependencies:
                            dependencies.append(the_id)
                dependencies = tuple(dependencies)
"""), ("""                this_key = str(t_keys)
                source_chunks_by_key.setdefault(this_key,
                                                []).append([chunk_id, task])
""", """                same_keys = source_chunks_by_key.setdefault(str(t_keys), [])
                same_keys.append((chunk_id, task))
"""), file=D)


def run(name, show):
    rel, props, pairs = R[name]
    tmp = tempfile.mkdtemp(prefix='refactor-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        path = os.path.join(repo, rel)
        s = open(path).read()
        for old, new in pairs:
            if s.count(old) != 1:
                return '%s: the text occurs %d times: %r' % (
                    name, s.count(old), old[:60])
            s = s.replace(old, new)
        open(path, 'w').write(s)
        out = []
        if '-t' in sys.argv:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                                '-p', 'no:cacheprovider', 'biggus'],
                               env=dict(os.environ, PYTHONPATH=repo,
                                        PYTHONDONTWRITEBYTECODE='1'),
                               cwd=repo, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            out.append('tests: ' + r.stdout.decode().strip()
                       .splitlines()[-1])
        for p in props:
            e = dict(os.environ, BIGGUS_REPO=repo, PYTHONPATH=HERE,
                     PYTHONHASHSEED='0')
            r = subprocess.run(['python3-vt', '-m', 'pyvc.run', p, 'quick',
                                '150', '6'], cwd=HERE, env=e,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            try:
                d = json.loads(r.stdout.decode().strip().splitlines()[-1])
            except Exception:
                out.append('%s: ERROR %s' % (p, r.stderr.decode()[-300:]))
                continue
            bad = ['%s %s/%s %s' % ('ALARM' if f['status'] == 'failed' and
                                    not f.get('loose') else 'unknown',
                                    c['name'], f['name'],
                                    f['detail'][:120])
                   for c in d['contracts'] for f in c['failed']]
            lim = ['%s: %s' % (c['name'], l[:150]) for c in d['contracts']
                   for l in c['limitations']]
            n = sum(not c['complete'] for c in d['contracts'])
            out.append('%s: %d contracts, %d incomplete' % (
                p, len(d['contracts']), n))
            out += ['    ' + x for x in bad[:show] + lim[:show]]
        return '%s\n  %s' % (name, '\n  '.join(out))
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    for n in names or list(R):
        print(run(n, 6))
        sys.stdout.flush()
