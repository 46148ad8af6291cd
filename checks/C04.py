ST = ['-I', '$V/stubs', '-include', '$V/stubs/compat/compat.h']
SRC = ['$V/harness/c04.cpp', '$REPO/src/matrix/distribution.cpp']
Q = dict(n_nb=1, n_tpb=2, n_gs=2, all_src=0, big_offset=0)
FULL = dict(n_nb=3, n_tpb=3, n_gs=2, big_offset=0)
def ent(n, cov, q=6, **k):
    return dict(entry=n, covers=cov, shards=q, time=300, params=Q, thorough=dict(params=FULL, shards=32, time=800), **k)
SPEC = dict(
    level='model_checking',
    bounds='matrix size and offset, tile range, element, view origin: any value in 0..2^60 (panel view: zero offset, 10 columns in tiles of 4); offset inside the first block (larger ones are equivalent, see C02); rank over its whole range, source rank over its whole range (quick: the last rank); tile size, tiles per block and grid size enumerated (quick: 3 x 1, 3 x 1, 3; thorough: 3, 1, 64 x 1, 3, 2 x 1, 3), both coordinates',
    outside='tile, block and grid sizes not in the tables; sizes above 2^60',
    harnesses=[dict(src=SRC, flags=ST, entries=[
        ent('c04_on_rank', ['on rank']),
        ent('c04_distance', ['range of tiles', 'no owned tile in the range']),
        ent('c04_next_local_element', ['next local tile of an element']),
        ent('c04_blocks_as_tiles', ['blocks as tiles', 'owned block']),
        ent('c04_view', ['view', 'tile of the view']),
        ent('c04_panel_view', ['panel view', 'tile of the panel view']),
    ])])
