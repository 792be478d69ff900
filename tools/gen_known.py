"""Writes known_findings.json (run by hand after a fix commit)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ('fmod had no', 'C13', 'masked fmod raised TypeError'),
 ('a boolean key', 'C01', 'a boolean vector key on an already indexed adapter selected by the flags instead of the positions'),
 ('keep the positions', 'C01', 'a second index after a boolean vector key used the flags as positions'),
 ('mixing a scalar and a tuple', 'C01', 'array[0, (0, 1)] over a source was not orthogonal'),
 ('masked scalars of a source', 'C01', 'a fully indexed masked source lost its dtype, mask and fill value'),
 ('NewAxesArray must broadcast', 'C03', 'indexing away dimensions of a NewAxesArray broadcast the wrong axis'),
 ('NewAxesArray with no new axes', 'C03', 'a NewAxesArray without new axes over a 0-d array converted to a scalar'),
 ('accept vector keys on the concrete', 'C03', 'vector keys on the concrete axes of a BroadcastArray were rejected'),
 ('allow broadcasting against empty', 'C08', 'operands with empty dimensions did not broadcast'),
 ('broadcast a BroadcastArray along', 'C08', 'a BroadcastArray operand could not be broadcast along its own axes'),
 ('accept negative axes in transpose', 'C03', 'transpose with negative axes gave wrong results'),
 ('a chain of astype', 'C03', 'astype(int).astype(float) dropped the first cast'),
 ('reject out of bounds indices', 'C07', 'constant and broadcast dimensions accepted any integer index'),
 ('index the dimensions of an ArrayStack', 'C04', 'tuples on several stack dimensions were not orthogonal'),
 ('allow an empty selection of the items', 'C04', 'an empty selection of stack items raised'),
 ('a negative slice step on a LinearMosaic', 'C05', 'mosaic[::-1] reversed the tiles twice'),
 ('negative, boolean, out of bounds', 'C05', 'negative, boolean, out-of-range and empty keys on the tiled axis'),
 ('elementwise results are arrays', 'C13', 'elementwise results had another dtype than declared, or were scalars'),
 ('sum of a masked array whose chunk', 'C12', 'masked sum failed on a chunk without a mask'),
 ('min and max must combine', 'C12', 'min and max of several chunks along the axis'),
 ('std and var of chunks', 'C11', 'std and var with chunks of length one along the axis'),
 ('mean of a masked array with no data', 'C12', 'masked mean with no data raised'),
 ('integer overflow of the mean', 'C11', 'integer overflow in mean, std and var'),
 ('a failing node', 'C15', 'a failing node left the producers of its inputs blocked for ever'),
 ("don't share a node", 'C14', 'a node shared by consumers of different iteration orders got the wrong chunks'),
 ('evaluate operands in the same chunks', 'C14', 'operands chunked differently were combined chunk by chunk'),
 ('sum of a masked array computed', 'C12', 'ndarray() of the sum of a masked array mixed in masked data'),
 ('the dask engine failed', 'C20', 'the dask engine failed on misaligned chunks'),
 ('the dask engine gathered', 'C20', 'the dask engine placed misaligned chunks wrongly'),
 ("don't expose uninitialised", 'C13', 'the data below masked scalars was uninitialised memory, so that power() failed at random'),
 ('group_keys emptied', 'C20', 'group_keys emptied its arguments, and lost the keys of a list given twice'),
 ('more than 9999 keys', 'C20', 'grouping failed if there were more than 9999 keys along a dimension'),
 ('keep the byte-order of a source', 'C18', 'a single element of a source of foreign byte-order was converted to another dtype than declared'),
 ('an empty selection of a stack', 'C04', 'an empty selection of a stack of times raised'),
 ('indexing an operation on a Python scalar', 'C06', 'indexing x + 1 changed its dtype, and the values which had overflowed'),
 ('chunks of an operation on a Python scalar', 'C11', 'aggregations of x + 1 used other values (not overflowed) than x + 1 converts to'),
 ('half precision', 'C11', 'the mean, std and var of half precision overflowed in the accumulators'),
 ('nbytes of huge arrays', 'C18', 'nbytes overflowed for huge virtual arrays'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'],
                              text=True).splitlines()
fixed = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    for key, prop, what in PROP:
        if key in s and key != 'a boolean key':
            fixed.append('fixed: property=%s %s %s' % (prop, h, what))
            break
    else:
        raise SystemExit('no entry for ' + line)
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'known': [], 'fixed': fixed}, f, indent=1)
