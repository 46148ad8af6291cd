from common import *
SPEC = dict(
    level='model_checking', bounds='every content: redistribution between any two source ranks of grids 1x1, 2x1, 1x2, 2x2 with four size / tile / allocation combinations and two orders of posting the messages; whole and tile-range copies of matrices up to 4x3; every window of a 5x3 matrix in tiles up to 3x2; retiling of matrices up to 5x3 into tiles of 1..2 rows (factor up to 3x2), read-only and read-write, of matrices and of references; thorough: seven combinations, three orders, grids up to 2x3',
    outside='larger sizes; float instances (same templates); GPU copies',
    harnesses=[dict(src=['$V/harness/c16.cpp'] + ALGO, flags=STA, entries=[
        dict(entry='c16_redist', covers=['redistributed'], shards=16, time=300, pins={'complex': [0]}, thorough=dict(params=dict(sizes=6, grids=8, schedulers=2), pins={}, shards=64, time=800)),
        dict(entry='c16_same', covers=['same distribution'], shards=8, time=300, thorough=dict(params=dict(grids=8), shards=16, time=800)),
        dict(entry='c16_ref', covers=['window'], shards=16, time=300, thorough=dict(params=dict(grids=8), shards=64, time=800)),
        dict(entry='c16_retile', covers=['retiled'], shards=16, time=300, params=dict(m=5), thorough=dict(params=dict(m=7, grids=8), shards=64, time=800)),
    ])])
