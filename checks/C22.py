from common import *
SPEC = dict(
    level='model_checking',
    bounds='every Hermitian matrix and every triangular factor with positive diagonal (symbolic entries, real and complex), both triangles, order 0..5 in tiles of 1..2, on one process with two task orders, and order 0..4 on grids 1x1, 2x1, 1x2, 2x2 with every source rank; thorough: order up to 6, tiles up to 3, grids up to 2x3',
    outside='rounding of floating point; larger sizes; the vendor LAPACK tile kernels (textbook definitions in their place); float and complex<float> instances (same templates)',
    harnesses=[dict(src=['$V/harness/c22.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c22_local', covers=['reduced'], shards=6, time=300, params=dict(n=5), thorough=dict(params=dict(n=6, nb=3), shards=16, time=800)),
        dict(entry='c22_dist', covers=['reduced'], shards=16, time=400, params=dict(n=4), thorough=dict(params=dict(n=5, nb=2, grids=8), shards=64, time=800)),
    ])])
