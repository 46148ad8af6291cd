from common import *
SPEC = dict(
    level='model_checking',
    bounds='every positive definite matrix (factor with symbolic entries, real and complex) of size 0..5 in tiles of 1..2, both triangles, on one process and on grids 1x1, 2x1, 1x2, 2x2 with every source rank, two task orders; thorough: sizes up to 7, tiles up to 3, grids up to 2x3',
    outside='rounding of floating point; larger sizes; the vendor BLAS/LAPACK tile kernels (textbook definitions in their place); float and complex<float> instances (same templates)',
    harnesses=[dict(src=['$V/harness/c18.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c18_local', covers=['factorised'], shards=4, time=300, thorough=dict(params=dict(n=8, nb=3), shards=16, time=800)),
        dict(entry='c18_dist', covers=['factorised'], shards=16, time=400, thorough=dict(params=dict(n=6, nb=2, grids=8), shards=64, time=800)),
    ])])
