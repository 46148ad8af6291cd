ST = ['-I', '$V/stubs', '-include', '$V/stubs/compat/compat.h']
SRC = ['$V/harness/c03.cpp', '$REPO/src/matrix/distribution.cpp']
Q = dict(n_nb=1, n_tpb=2, n_gs=2, all_src=0, big_offset=0)
FULL = dict(n_nb=3, n_tpb=3, n_gs=2, big_offset=0)
def ent(n, cov, q=6, **k):
    return dict(entry=n, covers=cov, shards=q, time=300, params=dict(Q, **k), thorough=dict(params=FULL, shards=32, time=800))
SPEC = dict(
    level='model_checking',
    bounds='parent size and offset, window origin and size, element: any value in 0..2^60; offset inside the first block (larger ones are equivalent, see C02); rank over its whole range, source rank over its whole range (quick: the last rank); tile size, tiles per block and grid size enumerated (quick: 3 x 1, 3 x 1, 3; element by element: 3 x 3 x 2; nested windows: 3 x 1 x 2; thorough: 3, 1, 64 x 1, 3, 2 x 1, 3), both coordinates',
    outside='tile, block and grid sizes not in the tables; sizes above 2^60',
    harnesses=[dict(src=SRC, flags=ST, entries=[
        ent('c03_attributes', ['window', 'empty window']),
        ent('c03_element', ['element', 'owned element'], 8, min_tpb=1, min_gs=2, n_gs=3),
        ent('c03_nested', ['nested'], 8, n_tpb=1, min_gs=2, n_gs=3),
        dict(entry='c03_refused', covers=['accepted'], shards=1),
    ])])
