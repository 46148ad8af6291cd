from common import *
SPEC = dict(
    level='model_checking',
    bounds='every permutation (symbolic index array) and every content of matrices of order 3..5 in tiles of 1..3 with ranges of whole, leading, inner and trailing tiles (also empty), rows and columns, on one process with two task orders and on grids 1x1, 2x1, 1x2, 2x2 with every source rank; thorough: order up to 6 and grids up to 2x3',
    outside='larger sizes; float instance (same template); GPU kernels',
    harnesses=[dict(src=['$V/harness/c26.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c26_local', covers=['permuted', 'empty range'], shards=6, time=300, thorough=dict(params=dict(ranges=9), shards=16, time=800)),
        dict(entry='c26_dist', covers=['permuted', 'empty range'], shards=16, time=400, params=dict(ranges=3), thorough=dict(params=dict(ranges=7, grids=8), shards=64, time=800)),
    ])])
