from common import *
SPEC = dict(
    level='model_checking',
    bounds='every triangular matrix with invertible diagonal and every Cholesky factor (symbolic entries, real and complex), both triangles and diagonal kinds, order 0..5 in tiles of 1..2, on one process with two task orders, and order 0..4 on grids 1x1, 2x1, 1x2, 2x2 with every source rank; thorough: order up to 7, tiles up to 3, grids up to 2x3',
    outside='rounding of floating point; larger sizes; the vendor LAPACK tile kernels (textbook definitions in their place); float and complex<float> instances (same templates)',
    harnesses=[dict(src=['$V/harness/c20.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c20_local', covers=['inverse of the factored matrix', 'inverse of the triangular matrix'], shards=6, time=300, params=dict(n=5), thorough=dict(params=dict(n=7, nb=3), shards=16, time=800)),
        dict(entry='c20_dist', covers=['inverse of the factored matrix', 'inverse of the triangular matrix'], shards=16, time=400, params=dict(n=4), thorough=dict(params=dict(n=6, nb=2, grids=8), shards=64, time=800)),
    ])])
