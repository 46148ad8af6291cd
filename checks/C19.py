from common import *
H = lambda d: dict(src=['$V/harness/c19.cpp'] + ALGO, flags=STA + d, entries=[
        dict(entry='c19_local', covers=['computed'], shards=8, time=300, params=dict(cases=6), thorough=dict(params=dict(cases=10), shards=16, time=800)),
        dict(entry='c19_dist', covers=['computed'], shards=16, time=400, params=dict(cases=2), pins={'complex': [1]}, thorough=dict(params=dict(cases=7, grids=8), pins={}, shards=64, time=800)),
    ])
SPEC = dict(
    level='model_checking',
    bounds='every A (triangle with invertible diagonal), B and alpha != 0 (symbolic entries, real and complex), all sides, triangles, operations and diagonal kinds, A of order 0..5 in tiles of 1..2(3), B up to 5x3 in tiles of 1..2, on one process with two task orders, and (complex) on grids 1x1, 2x1, 1x2, 2x2 with every source rank, order 3..4; thorough: order up to 6, grids up to 2x3, real and complex',
    outside='alpha = 0 (the solver divides by it); rounding of floating point; larger sizes; the vendor BLAS tile kernels (textbook definitions in their place); float and complex<float> instances (same templates); the distributed multiplication with Trans/ConjTrans, which the code refuses',
    harnesses=[H(['-DC19_SOLVE']), H([])])
