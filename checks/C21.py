from common import *
SPEC = dict(
    level='model_checking',
    bounds='every A, B, C, alpha and beta (symbolic, real and complex; alpha and beta also exactly 0 and 1): the Hermitian multiplication (left, lower) of order 0..5 in tiles of 1..2 with 0..3 columns, and seven general multiplications of sub-ranges (whole, trailing tiles, windows cutting tiles, empty ranges), on one process with two task orders and on grids 1x1, 2x1, 1x2, 2x2 with every source rank (order up to 4); thorough: order up to 7, grids up to 2x3',
    outside='rounding of floating point; larger sizes; the vendor BLAS tile kernels (textbook definitions in their place); float and complex<float> instances (same templates); Right/Upper Hermitian and transposed general multiplications, which the code refuses',
    harnesses=[dict(src=['$V/harness/c21.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c21_local', covers=['hermitian', 'general'], shards=6, time=300, params=dict(n=5), thorough=dict(params=dict(n=7), shards=16, time=800)),
        dict(entry='c21_dist', covers=['hermitian', 'general'], shards=16, time=400, params=dict(n=4), thorough=dict(params=dict(n=6, grids=8), shards=64, time=800)),
    ])])
