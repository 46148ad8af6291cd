from common import *
SPEC = dict(
    level='model_checking',
    bounds='column-major layout: any number of rows up to 2^40, any leading dimension, any element; tile rows 1, 3 (thorough up to 7), tiles per block 1..2, process rows 1..2 (thorough 3), columns 0..3 (thorough 5) in tiles of 1..2; allocated matrices: sizes 0..4 x 0..4 (thorough 0..9), tile sizes 1..2 x 2, 1..2 tiles per block, process rows 1..2, all layouts, compact, padded, default and two given leading dimensions; preallocated: up to 4 x 4, leading dimension up to 6',
    outside='matrices larger than the bounds for the allocating constructors; GPU memory',
    harnesses=[dict(src=['$V/harness/c05.cpp'] + CORE, flags=ST, entries=[
        dict(entry='c05_col_major', covers=['layout', 'empty', 'element'], shards=8, time=300, thorough=dict(params=dict(nb=3, grid=3, cols=5), shards=32, time=800)),
        dict(entry='c05_matrix', covers=['matrix', 'empty matrix', 'elements stored'], shards=8, time=300, thorough=dict(params=dict(n=9), shards=16, time=800)),
        dict(entry='c05_preallocated', covers=['memory of the user'], shards=2),
        dict(entry='c05_refused', covers=['accepted']),
        dict(entry='c05_offset_refused', covers=['accepted matrix']),
    ])])
