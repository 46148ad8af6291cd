from common import *
SPEC = dict(
    level='model_checking',
    bounds='every general matrix up to 2x2, 3x1, 1x3 and lower triangle up to order 2 with arbitrary real (or purely real / purely imaginary complex) entries, tiles of 1..2, grids 1x1, 2x1, 1x2, 2x2 with every source rank and every requested rank, empty matrices included; thorough: up to 3x2 / order 3 and grids up to 2x3',
    outside='complex entries with both parts non-zero (their modulus is the vendor library\'s, the algorithm only compares moduli); NaN entries; the Upper part, which the code refuses; larger sizes; float instances (same templates)',
    harnesses=[dict(src=['$V/harness/c27.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c27_norm', covers=['norm', 'empty'], shards=16, time=300, thorough=dict(params=dict(sizes=6, grids=8), shards=64, time=800)),
    ])])
