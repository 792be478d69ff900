#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this list)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state],
            "observe_at": observe, "hook_needed": None}})


I = "biggus/_init.py"
p("C01", "Chained indexing of a wrapped data source reads exactly the selection",
  "For a NumpyArrayAdapter or OrthoArrayAdapter over any concrete array, and any "
  "sequence of successive index operations with integers, slices, tuples of "
  "integers and boolean vectors, converting the result gives exactly the elements "
  "(values, mask, order, shape) obtained by applying the same indices one after the "
  "other to the concrete array under orthogonal indexing. This holds whatever the "
  "sign of the indices and of the slice steps, and for empty selections.",
  ["inputs", "histories"],
  "every concrete shape, every finite chain of keys of the supported kinds",
  "The tests index a handful of fixed shapes at most twice with fixed keys; the law "
  "quantifies over all key kinds, signs, steps, sizes and chain lengths.",
  [I],
  [("key composition", I + ":_ArrayAdapter._getitem_full_keys/_remap_new_key"),
   ("key validation", I + ":_ArrayAdapter._cleanup_new_key"),
   ("orthogonal application on numpy", I + ":NumpyArrayAdapter._apply_keys"),
   ("key expansion", I + ":_full_keys")],
  ["Array.__getitem__(...).ndarray()/masked_array()"],
  [("_keys", "composed keys relative to the concrete array",
    I + ":_ArrayAdapter")])
p("C02", "The shape of an indexed array follows NumPy's rules without reading data",
  "For every array and every key expression (integers, slices, tuples, integer and "
  "boolean vectors, Ellipsis, newaxis, fewer keys than dimensions), the shape "
  "reported by the indexed array is the shape orthogonal NumPy indexing gives; a key "
  "with more non-newaxis entries than dimensions (beyond one Ellipsis) raises IndexError.",
  ["inputs"],
  "every rank, every shape, every combination and position of key kinds",
  "Tests list about twenty concrete key tuples; positions of Ellipsis/newaxis times "
  "key kinds times ranks is unbounded.",
  [I],
  [("key expansion", I + ":_full_keys"), ("shape rule", I + ":_sliced_shape"),
   ("entry point", I + ":Array.__getitem__")],
  ["Array.shape of array[keys]", "ConstantArray[keys].shape"])
p("C03", "Views commute with indexing",
  "For transposed, new-axis, broadcast, dtype-cast, value-masked and constant arrays "
  "over any contained array, whenever indexing is accepted, indexing the view and then converting it gives "
  "the same shape, values and mask as converting the view and then indexing orthogonally. "
  "A converted view itself equals the corresponding NumPy operation (transpose, newaxis, broadcast, astype, "
  "masked_equal, full) on the converted contained array.",
  ["inputs", "programs"],
  "every contained array, view parameters, and accepted key; views nested in any order (except a BroadcastArray given leading dimensions directly around another BroadcastArray, which the constructor merges)",
  "Tests cover one or two shapes per view and rarely combine views; axis bookkeeping "
  "errors need scalar keys before/after the special axes and nesting.",
  [I],
  [("transpose bookkeeping", I + ":TransposedArray._getitem_full_keys"),
   ("new axes bookkeeping", I + ":NewAxesArray.__getitem__"),
   ("broadcast bookkeeping", I + ":BroadcastArray._getitem_full_keys"),
   ("cast", I + ":AsDataTypeArray"), ("mask", I + ":MaskValueArray"),
   ("constant", I + ":ConstantArray")],
  ["ndarray()", "masked_array()", "shape", "dtype"])
p("C04", "A stack behaves as its items laid out at their stack positions",
  "An ArrayStack converts to the array whose leading indices select the item and whose "
  "trailing indices select within the item, for data and mask alike, and indexing it (one or more integers, "
  "slices, tuples across stack and item dimensions) commutes with conversion. Building an n-dimensional stack from "
  "a flat sequence places every item where the requested C or Fortran order puts it.",
  ["inputs"],
  "every stack shape (non-empty), item shape, order and accepted key",
  "Tests use a few stacks of at most 2-3 dimensions with simple keys.",
  [I],
  [("stack indexing", I + ":ArrayStack._getitem_full_keys"),
   ("conversion", I + ":ArrayStack.ndarray/masked_array"),
   ("placement", I + ":ArrayStack.multidim_array_stack")],
  ["ndarray()", "masked_array()", "shape"])
p("C05", "A mosaic behaves as the concatenation of its tiles",
  "A LinearMosaic converts to the concatenation of its tiles (data and mask) along its "
  "axis, and its shape is the concatenated shape. Indexing a mosaic with any integer (either sign), "
  "slice (either direction of step), tuple or vector, empty selections included, on the tiled axis and "
  "any other axis, commutes with conversion.",
  ["inputs"],
  "every number and size of tiles, axis, and key",
  "Tests use equal-sized tiles and a dozen keys; tile-boundary, negative and reversed "
  "selections depend on the relation between tile offsets and key values.",
  [I],
  [("tile search", I + ":LinearMosaic._getitem_full_keys"),
   ("concatenation", I + ":LinearMosaic.ndarray/masked_array/shape")],
  ["ndarray()", "masked_array()", "shape"])
p("C06", "Indexing a computed array equals computing and then indexing",
  "For an aggregation or an elementwise expression over any sources, indexing it lazily and "
  "converting gives the same shape and values as converting it and then indexing the result; the "
  "aggregated axis keeps denoting the same source dimension whatever dimensions the index removes.",
  ["inputs", "programs"],
  "every aggregation/elementwise expression, axis and key (including newaxis and Ellipsis)",
  "Tests check shapes of a few slices of computed arrays; they rarely convert them.",
  [I],
  [("axis adjustment", I + ":_Aggregation._getitem_full_keys"),
   ("operand indexing", I + ":_Elementwise._getitem_full_keys")],
  ["ndarray()", "masked_array()", "shape"])
p("C07", "Out-of-range and excess indices are rejected, never answered with data",
  "An integer index (alone or inside a tuple) outside [-n, n) for an axis of length n, or more indices than dimensions, "
  "makes indexing or, at the latest, conversion raise; it never yields data. This holds for every "
  "kind of array, including axes of length one, broadcast axes and axes whose length results from earlier indexing.",
  ["inputs", "histories"],
  "every array kind, axis length, key position and out-of-range value",
  "Tests try one or two out-of-range values on adapters; each class does its own index arithmetic.",
  [I],
  [("range checks", I + ":_ArrayAdapter._cleanup_new_key/_remap_new_key"),
   ("new axes checks", I + ":NewAxesArray.__getitem__"),
   ("broadcast checks", I + ":BroadcastArray._getitem_full_keys"),
   ("too many keys", I + ":_full_keys")],
  ["exception from array[keys] or its conversion"])
p("C08", "Operands broadcast exactly as NumPy broadcasts",
  "Two operands of an elementwise operation combine iff NumPy would broadcast their shapes, the result "
  "has NumPy's broadcast shape, and each broadcast operand converts to NumPy's broadcast of its converted source. "
  "Incompatible shapes raise ValueError.",
  ["inputs"],
  "every pair of shapes (any ranks, including zero-length and length-one axes) and operand kinds",
  "Tests try about eight shape pairs.",
  [I],
  [("shape rule", I + ":BroadcastArray._compute_broadcast_shape"),
   ("operand wrapping", I + ":BroadcastArray._compute_broadcast_kwargs/broadcast_arrays"),
   ("strided broadcast", I + ":BroadcastArray._broadcast_numpy_array")],
  ["shape and ndarray()/masked_array() of a op b"])
p("C09", "Chunks tile an array exactly once within the size limit",
  "For any shape and any chunk-size limit of at least one element, the chunks used to evaluate an array are disjoint, cover "
  "every element, and hold at most the limit's number of elements each. For any "
  "traversal order requested, the same chunks are visited, with the last dimension of that order varying fastest "
  "and positions ascending along every dimension.",
  ["inputs", "configurations"],
  "every rank and shape, every limit, every permutation as traversal order",
  "Tests check four shapes at the default limit of 16M elements; boundary arithmetic at "
  "other sizes/limits is unexercised.",
  [I],
  [("cut computation", I + ":_all_slices_inner"),
   ("ordered traversal", I + ":ProducerNode.chunk_index_gen")],
  ["the keys of the chunks emitted by the engine and by save()"],
  [("MAX_CHUNK_SIZE", "limit on elements per chunk", I)])
p("C10", "save writes every element exactly once at its own position",
  "Saving an array to a target assigns, for every position of the array, that position's value (or masked value when "
  "masked output is requested) exactly once and assigns nothing else, whatever the shape "
  "and the chunk-size limit; each single assignment carries at most the limit's number of elements.",
  ["inputs", "configurations"],
  "every source array, shape and chunk limit, masked or not",
  "Tests save arrays that mostly fit one chunk.",
  [I],
  [("chunked transfer", I + ":save"), ("cuts", I + ":_all_slices_inner")],
  ["__setitem__ calls on the target"])
p("C11", "Aggregations of unmasked data equal the whole-array result for any chunking",
  "count, min, max, sum, mean, std and var along any axis (negative axes too) of an unmasked numeric array of finite values (for count, min, max, sum and mean: with or without NaN among them, which propagates as in NumPy) with a non-empty axis equal the "
  "same statistic computed on the whole array (in the declared result dtype; mean, std and var "
  "to rounding, with ddof honoured), however the array and in particular the aggregated axis is cut into chunks.",
  ["inputs", "schedules", "configurations"],
  "every numeric array, axis, ddof, and chunk limit, hence every sequence of chunk lengths",
  "Test arrays fit into one or a few chunks of the default 16M-element limit, so the "
  "combination of partial results is hardly exercised.",
  [I],
  [("partial results", I + ":_Count/_Min/_Max/_Sum/_Mean/_Std/_VarStreamsHandler"),
   ("chunk switching", I + ":_AggregationStreamsHandler.process_chunks"),
   ("Welford recurrence", I + ":_StdStreamsHandler.process_data")],
  ["ndarray()"],
  [("running_total / result / a,q,k", "accumulators of the current output chunk", I)])
p("C12", "Masked aggregations ignore masked elements exactly, for any chunking",
  "Converted to a masked array, an aggregation equals the statistic of the unmasked elements along the axis; the "
  "result is masked where no element contributes (count excepted, which is then 0) and, for mean, also where "
  "the masked fraction exceeds mdtol. This holds for any mask (including none), axis and chunking.",
  ["inputs", "schedules", "configurations"],
  "every masked array, mask pattern, axis, mdtol in [0,1], ddof, and chunk limit",
  "Tests have a few 1-D/2-D masks in a single chunk.",
  [I],
  [("masked partial results", I + ":_CountMasked/_MinMasked/_MaxMasked/_SumMasked/_MeanMasked/_StdMasked/_VarMaskedStreamsHandler")],
  ["masked_array()"],
  [("running_count, running_masked_count, mask", "contributing/masked elements so far", I)])
p("C13", "Elementwise operations equal the NumPy function of the converted operands",
  "For every exported elementwise function and every arithmetic operator (reflected forms included), the converted result "
  "equals the like-named NumPy function applied to the converted operands in the written order, in the dtype that the lazy "
  "result declares (to rounding where that differs from the one NumPy chooses for a Python scalar operand); the masked conversion equals the numpy.ma function of the masked operands, or raises "
  "TypeError if there is none.",
  ["inputs", "programs"],
  "every exported function/operator, operand kinds (array, ndarray, Python and NumPy scalars), shapes and dtypes",
  "Tests exercise a few functions and operand orders; reflected non-commutative operators and "
  "dtype promotion vary per function.",
  [I],
  [("wrapping", I + ":_ufunc_wrapper/_unary_fn_wrapper/_dual_input_fn_wrapper"),
   ("evaluation", I + ":_Elementwise"),
   ("operators", I + ":Array.__add__ ... __rpow__")],
  ["ndarray()", "masked_array()", "dtype"])
p("C14", "Engine evaluation is exact for any expression graph, chunking and schedule",
  "Evaluating one or several lazy arrays together returns, for each and in the order given, an array of its declared shape with every "
  "element equal to converting it on its own without chunking, whatever "
  "sub-expressions they share, the chunk limit and the thread interleaving.",
  ["inputs", "programs", "schedules", "configurations"],
  "every tuple of expressions with sharing, every chunk limit, every schedule of the node threads",
  "Tests evaluate a few graphs in one chunk, under whatever schedule occurs.",
  [I],
  [("graph building and node sharing", I + ":AllThreadedEngine.Group._make_node/evaluate"),
   ("lock-step consumption", I + ":ConsumerNode.run"),
   ("placement of results", I + ":NdarrayNode.process_chunks"),
   ("traversal order", I + ":_AggregationStreamsHandler.input_iteration_order/output_keys"),
   ("stream end", I + ":ProducerNode.run")],
  ["biggus.ndarrays/masked_arrays"],
  [("output_queues", "FIFO streams of chunks ended by one terminator", I + ":Node")])
p("C15", "A failure anywhere in an evaluation reaches the caller",
  "If reading a source, processing a chunk or finalising a result raises at any point of an evaluation, the evaluation "
  "request raises to its caller; it never returns a partial or stale result. Every stream "
  "receives exactly one end marker, after all its chunks, and that marker is the failure marker iff something upstream failed.",
  ["fault_sequences", "schedules", "programs"],
  "every fault position (node, chunk, phase) in every expression graph",
  "Tests inject one failing source; position and graph shape matter.",
  [I],
  [("producer protocol", I + ":ProducerNode.run"),
   ("consumer protocol", I + ":ConsumerNode.run"),
   ("result poisoning", I + ":NdarrayNode.abort"),
   ("caller check", I + ":AllThreadedEngine.Group.evaluate")],
  ["exception from ndarray()/ndarrays()", "items put on node output queues"])
p("C16", "Nothing is read before conversion",
  "Constructing, combining, indexing, transposing, casting, printing and asking shape, dtype, ndim, nbytes, "
  "size or fill value of lazy arrays never reads elements of the underlying data sources; only conversion, evaluation and "
  "save do.",
  ["inputs", "programs"],
  "every expression built from the public API and every metadata query",
  "Tests check laziness of two or three operations with an access counter.",
  [I],
  [("deferred keys", I + ":_ArrayAdapter"), ("computed arrays", I + ":ComputedArray"),
   ("dtype probing on dummy data", I + ":_Elementwise.__init__")],
  ["accesses to the concrete source"])
p("C17", "Operations never modify sources, operands or earlier results",
  "Indexing, combining, evaluating and saving leave the concrete data sources and every existing lazy array unchanged: "
  "after any sequence of operations each array still converts to what it converted to before, and accumulators never write "
  "into the source's memory.",
  ["inputs", "histories", "programs"],
  "every sequence of API operations over shared arrays",
  "Tests compare fresh results; they do not re-check sources and operands afterwards.",
  [I],
  [("fresh key lists", I + ":_ArrayAdapter._getitem_full_keys"),
   ("copied stack", I + ":ArrayStack._getitem_full_keys"),
   ("copied chunk data", I + ":_StdStreamsHandler.process_data"),
   ("read-only broadcast views", I + ":BroadcastArray._broadcast_numpy_array")],
  ["sources and operands after operations"])
p("C18", "Declared shape and dtype are those of the converted array",
  "For every lazy array, the ndarray it converts to has exactly the shape and dtype the lazy array declares, and its "
  "masked conversion has the same shape; ndim and nbytes agree with them for arrays of any "
  "virtual size.",
  ["inputs", "programs"],
  "every expression over arrays of integer and floating dtypes",
  "Tests assert shapes/dtypes of a few expressions.",
  [I],
  [("shape/dtype properties", I + ":shape, dtype, ndim, nbytes of every Array class")],
  ["shape, dtype, ndim, nbytes"])
p("C19", "Axis arguments denote the same dimension as in NumPy",
  "For every aggregation, a negative axis -k on an array of n dimensions means n-k, an axis outside [-n, n) raises ValueError, a non-integer axis "
  "raises TypeError, and None or several axes are refused; the result's dimensions are the source's, in order, "
  "without that axis.",
  ["inputs"],
  "every axis argument and rank",
  "Tests check rank-3 samples.",
  [I],
  [("normalisation", I + ":_normalise_axis"),
   ("result shape", I + ":_Aggregation.shape"),
   ("entry points", I + ":count/min/max/sum/mean/std/var")],
  ["shape of, and exceptions from, the aggregation functions"])
p("C20", "Key grouping partitions chunk keys consistently (experimental dask engine)",
  "Given per-input chunk keys that each tile a dimension, grouping returns groups whose ranges are disjoint, cover the "
  "dimension, contain every input key in exactly one group, and in which every input's keys tile the group's range; the lists of keys given are left as they were. "
  "Evaluation through the experimental engine equals evaluation through the default engine.",
  ["inputs", "programs"],
  "every dimension length, every set of unit-step tilings",
  "Tests have a dozen hand-made groupings.",
  ["biggus/experimental/key_grouper.py", "biggus/experimental/dask_engine.py"],
  [("grouping", "biggus/experimental/key_grouper.py:dimension_group_to_lowest_common/group_keys"),
   ("normalisation", "biggus/experimental/key_grouper.py:normalize_slice")],
  ["group_keys(...)", "DaskEngine().ndarrays(...)"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..",
                       "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
