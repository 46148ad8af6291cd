import os
ST = ['-I', '$V/stubs', '-include', '$V/stubs/compat/compat.h']
SRC = ['$V/harness/c02.cpp', '$REPO/src/matrix/distribution.cpp']
Q = dict(n_nb=2, n_tpb=2, n_gs=2)
FULL = dict(n_nb=4, n_tpb=3, n_gs=3)
def ent(n, cov, q=4, **k):
    return dict(entry=n, covers=cov, shards=q, time=300, params=Q, thorough=dict(params=FULL, shards=32, time=800), **k)
SPEC = dict(
    level='model_checking',
    bounds='matrix size and offset 0..2^60, rank and source rank symbolic over their whole range, any element/tile; tile size, tiles per block and grid size enumerated from tables (quick: 3, 1 x 1, 3 x 1, 3; thorough: 3, 1, 64, 4 x 1, 3, 2 x 1, 3, 2), both coordinates',
    outside='tile sizes, block sizes and grid sizes not in the tables; sizes and offsets above 2^60; negative offsets',
    harnesses=[dict(src=SRC, flags=ST, entries=[
        ent('c02_sizes', ['sizes', 'empty', 'offset beyond a block']),
        ent('c02_blocks', ['blocks']),
        ent('c02_element', ['element']),
        ent('c02_local_of_global', ['owned', 'not owned']),
        ent('c02_global_of_local', ['local element']),
        ent('c02_next_local', ['next local tile']),
        ent('c02_equivalent', ['equivalent']),
        dict(entry='c02_different', covers=['different'], shards=4),
        dict(entry='c02_two_dim', covers=['two dimensions', 'two dimensions, owned']),
    ])])
